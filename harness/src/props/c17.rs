//! Connections are pooled per address within the configured maximum.
use super::prelude::*;
use peer::{Cmd, Did, Hub};
use tchannel_rs::handler::HandlerResult;
use tchannel_rs::messages::{MessageChannel, RawMessage};
use tchannel_rs::SubChannel;
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    knobs: Knobs,
    workers: u8,
    servers: u8,
    /// Servers at IPv6 addresses.
    v6: [bool; 3],
    ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    One(Call),
    /// Concurrent calls, answered at once or only when all requests have arrived.
    Burst(Vec<Call>, bool),
    /// A call dropped when its request has arrived (or right after it was made), answered after or not.
    Abandon { call: Call, early: bool, answered: bool },
    /// A call to an address which resolves to one where nobody listens, then others. Abandoned after a while.
    Dead(Call),
    /// A server closes or resets all its connections.
    Lose(u8, bool),
    /// The connections being set up get set up.
    Settle,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    /// The servers the address resolves to. The first counts.
    to: Vec<u8>,
    how: How,
    service: bool,
    ans: Ans,
    body: Arg,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum How {
    Addr,
    List,
    Text,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ans {
    Ok,
    Long,
    ErrorCode,
    ErrorFrame,
    /// A reply in another argument scheme.
    Scheme,
    /// A call response which ends within its fields.
    Short,
    /// A code which does not exist.
    Code,
}
const ANS: [Ans; 7] = [Ans::Ok, Ans::Long, Ans::ErrorCode, Ans::ErrorFrame, Ans::Scheme, Ans::Short, Ans::Code];
pub struct P;

#[derive(Default, Clone, Debug)]
struct Seen {
    accepted: usize,
    lost: usize,
    open: usize,
    most: usize,
    client_closed: usize,
    /// Numbers of the calls whose requests arrived, with their connections.
    calls: Vec<(usize, usize)>,
    bad: Option<String>,
}
enum Ctl {
    Release,
    Lose(bool, tokio::sync::oneshot::Sender<()>),
    /// Answer this call even though it is held.
    Answer(usize),
}
type All = Arc<Mutex<Vec<Seen>>>;

impl Prop for P {
    type C = C;
    const ID: &'static str = "C17";
    const RULE: &'static str = "Histories of up to 14 operations of one client with a maximum of 1-4 connections and 1-3 scripted servers which count connections: single calls, bursts of up to 12 concurrent calls (answered at once, or all held until all have arrived), abandoned calls, calls answered in one of 7 ways (5 of them failures), connections lost, addresses which resolve to several servers (IPv4 and IPv6, or nobody listening at the first), two subchannels, single- and multi-threaded. Oracle: requests only at the (first) address given, never more open connections than the maximum, exactly one after sequential calls, none more for a call made when there are idle ones, none closed by the client. Non-trivial: concurrent calls or two addresses.";
    const THREADS: usize = 24;
    const LONG: usize = 16;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 30_000 } else { 600_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let steps = t.steps(1..=t.pick(14, 40, 0), 500..=2500);
        let how = proptest::sample::select(vec![How::Addr, How::Addr, How::List, How::Text]);
        let most = t.pick(3u8, 3, 255);
        let to = prop_oneof![4 => vec(0..most, 1..=1), 1 => vec(0..most, 2..=3)];
        let call = (to, how, any::<bool>(), proptest::sample::select(ANS.to_vec()), prop_oneof![9 => blob::small_arg(), 1 => blob::arg(90_000)])
            .prop_map(|(to, how, service, ans, body)| Call { how: if to.len() > 1 { How::List } else { how }, to, service, ans, body });
        let large = t.pick(0, 0, 1);
        let servers = if t == Tier::Long { prop_oneof![1u8..=3, 4u8..=60].boxed() } else { (1u8..=3).boxed() };
        let op = prop_oneof![
            6 => call.clone().prop_map(Op::One),
            4 => (vec(call.clone(), 2..=12), any::<bool>()).prop_map(|(c, h)| Op::Burst(c, h)),
            1 => call.clone().prop_map(Op::Dead),
            large => (vec(call.clone(), 60..=200), any::<bool>()).prop_map(|(c, h)| Op::Burst(c, h)),
            2 => (call, any::<bool>(), any::<bool>()).prop_map(|(call, early, answered)| Op::Abandon { call, early, answered }),
            1 => (0..most, any::<bool>()).prop_map(|(s, r)| Op::Lose(s, r)),
            2 => Just(Op::Settle),
        ];
        (knobs(), prop_oneof![1 => Just(0u8), 1 => 2u8..=4], servers, prop_oneof![2 => Just([false; 3]), 1 => any::<[bool; 3]>()], vec(op, steps)).prop_map(|(knobs, workers, servers, v6, ops)| C { knobs, workers, servers, v6, ops }).boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl = vec![format!("maximum {}", c.knobs.conns)];
        let mut nt = c.servers > 1;
        for o in &c.ops {
            match o {
                Op::One(x) => {
                    cl.push(format!("answer {:?}", x.ans));
                    if x.to.len() > 1 {
                        cl.push("several addresses".into());
                    }
                }
                Op::Burst(_, hold) => {
                    nt = true;
                    cl.push(if *hold { "burst, held".into() } else { "burst".into() });
                }
                Op::Abandon { .. } => cl.push("abandoned".into()),
                Op::Lose(..) => cl.push("lost".into()),
                Op::Dead(_) => cl.push("first address dead".into()),
                Op::Settle => {}
            }
        }
        if c.v6[..(c.servers as usize).min(3)].contains(&true) {
            cl.push("IPv6".into());
        }
        cl.sort();
        cl.dedup();
        (nt, cl)
    }
    fn rt(&self, c: &C) -> Rt {
        if c.workers == 0 { Rt::Current } else { Rt::Multi(c.workers as usize) }
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(run(c, ctx))
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["No connection reaches its lifetime or idle limit (60 s and 10 min) during a history.".into()]
    }
}

async fn run(c: C, ctx: Ctx) -> R {
    let n = c.servers as usize;
    let mut addrs: Vec<SocketAddr> = vec![];
    let dead = ctx.addr();
    let all: All = Arc::new(Mutex::new(vec![Seen::default(); n]));
    let mut ctl = vec![];
    let hold = Arc::new(Mutex::new((false, 0usize)));
    for i in 0..n {
        let (tx, rx) = unbounded_channel();
        ctl.push(tx);
        // Where there is no IPv6, IPv4 does.
        let v6 = || c.v6[i % 3].then(|| std::net::TcpListener::bind("[::1]:0").ok()).flatten();
        let l = match v6() {
            Some(l) => {
                let _ = l.set_nonblocking(true);
                tokio::net::TcpListener::from_std(l).map_err(|e| Bad::Soft(format!("harness cannot listen: {e}")))?
            }
            None => peer::listen(ctx.addr())?,
        };
        addrs.push(l.local_addr().map_err(|e| Bad::Soft(e.to_string()))?);
        let hub = Hub::new(l, true);
        tokio::spawn(serve(hub, i, all.clone(), rx, hold.clone()));
    }
    let cl = client(&c.knobs)?;
    let subs = [sub(&cl, "svc").await?, sub(&cl, "other").await?];
    let max = c.knobs.conns as usize;
    let mut made = 0;
    // Servers whose connections were only ever used by one call at a time, and not lost.
    let mut calm = vec![true; n];
    // Connections of each server when last settled, unless it got concurrent calls or lost some since.
    let mut settled: Vec<Option<usize>> = vec![None; n];
    for (k, op) in c.ops.iter().enumerate() {
        let what = format!("step {k}");
        match op {
            Op::One(x) => {
                let s = x.to[0] as usize % n;
                let r = ask(&subs, x, &addrs, made).await;
                judge(&c, x, made, r, &what)?;
                made += 1;
                if let Some(before) = settled[s] {
                    let now = all.lock().unwrap()[s].accepted;
                    if before > 0 && now != before {
                        return soft(format!("{what}: a call opened a connection though there were {before} idle ones"));
                    }
                }
                if calm[s] {
                    let now = all.lock().unwrap()[s].accepted;
                    if now != 1 {
                        return hard(format!("{what}: {now} connections after calls one by one"));
                    }
                }
            }
            Op::Burst(calls, held) => {
                *hold.lock().unwrap() = (*held, calls.len());
                let mut ts = vec![];
                for (j, x) in calls.iter().enumerate() {
                    let s = x.to[0] as usize % n;
                    settled[s] = None;
                    calm[s] = false;
                    let (subs, x, addrs, no) = (subs.clone(), x.clone(), addrs.clone(), made + j);
                    ts.push(tokio::spawn(async move { ask(&subs, &x, &addrs, no).await }));
                }
                if *held {
                    let ok = eventually(8000, || all.lock().unwrap().iter().map(|s| s.calls.iter().filter(|c| c.0 >= made).count()).sum::<usize>() >= calls.len() || all.lock().unwrap().iter().any(|s| s.bad.is_some())).await;
                    check(&all, max, made + calls.len(), &what)?;
                    if !ok {
                        return soft(format!("{what}: requests do not arrive while others are unanswered"));
                    }
                    hold.lock().unwrap().0 = false;
                    for t in &ctl {
                        let _ = t.send(Ctl::Release);
                    }
                }
                for (j, t) in ts.into_iter().enumerate() {
                    match t.await {
                        Ok(r) => judge(&c, &calls[j], made + j, r, &what)?,
                        Err(e) => return hard(format!("{what}: {e}")),
                    }
                }
                made += calls.len();
            }
            Op::Abandon { call: x, early, answered } => {
                let s = x.to[0] as usize % n;
                hold.lock().unwrap().0 = true;
                let no = made;
                made += 1;
                let t = tokio::spawn({ let (subs, x, addrs) = (subs.clone(), x.clone(), addrs.clone()); async move { ask(&subs, &x, &addrs, no).await } });
                if *early {
                    // May leave a connection being set up behind.
                    settled[s] = None;
                    calm[s] = false;
                    tokio::task::yield_now().await;
                } else if !eventually(8000, || all.lock().unwrap()[s].calls.iter().any(|c| c.0 == no)).await {
                    return soft(format!("{what}: request does not arrive"));
                }
                t.abort();
                let _ = t.await;
                hold.lock().unwrap().0 = false;
                if *answered {
                    let _ = ctl[s].send(Ctl::Answer(no));
                } else {
                    for c in &ctl {
                        let _ = c.send(Ctl::Answer(usize::MAX));
                    }
                }
            }
            Op::Dead(x) => {
                let no = made;
                made += 1;
                let mut t = tokio::spawn({
                    let (subs, mut x, mut to) = (subs.clone(), x.clone(), vec![dead]);
                    to.extend(x.to.iter().map(|i| addrs[*i as usize % addrs.len()]));
                    x.to = vec![DEAD];
                    x.how = How::List;
                    async move { ask_at(&subs, &x, &to, no).await }
                });
                match tokio::time::timeout(Duration::from_millis(2), &mut t).await {
                    Ok(Ok(Res::Ok(_) | Res::Message(_))) => return hard(format!("{what}: a call to an address where nobody listens got a reply")),
                    Ok(Err(e)) => return hard(format!("{what}: {e}")),
                    Ok(_) => {}
                    Err(_) => {
                        t.abort();
                        let _ = t.await;
                    }
                }
            }
            Op::Lose(s, reset) => {
                let s = *s as usize % n;
                settled[s] = None;
                calm[s] = false;
                let (tx, rx) = tokio::sync::oneshot::channel();
                let _ = ctl[s].send(Ctl::Lose(*reset, tx));
                let _ = rx.await;
                // The client notices.
                tokio::time::sleep(Duration::from_millis(3)).await;
            }
            Op::Settle => {
                tokio::time::sleep(Duration::from_millis(5)).await;
                for s in 0..n {
                    let seen = all.lock().unwrap()[s].clone();
                    settled[s] = Some(seen.open).filter(|_| seen.lost == 0).map(|_| seen.accepted);
                }
            }
        }
        check(&all, max, made, &what)?;
    }
    tokio::time::sleep(Duration::from_micros(500)).await;
    check(&all, max, made, "in the end")
}
fn check(all: &All, max: usize, made: usize, what: &str) -> R {
    for (i, s) in all.lock().unwrap().iter().enumerate() {
        if let Some(b) = &s.bad {
            return hard(format!("{what}: server {i}: {b}"));
        }
        if s.most > max {
            return hard(format!("{what}: {} open connections to server {i}, {max} allowed", s.most));
        }
        if s.client_closed > 0 {
            return hard(format!("{what}: the client closed a healthy connection to server {i}"));
        }
        if let Some(c) = s.calls.iter().find(|c| c.0 >= made) {
            return hard(format!("{what}: server {i} got call {} of {made}", c.0));
        }
    }
    Ok(())
}
fn request(x: &Call, no: usize) -> Parts {
    let mut cur = Cursor::new(blob::request_room(3, 3) - 20);
    Parts { ep: format!("c{no}"), header: format!("{} {}", x.to[0], ANS.iter().position(|a| *a == x.ans).unwrap()), body: x.body.bytes(&mut cur) }
}
async fn ask(subs: &[Arc<SubChannel>; 2], x: &Call, addrs: &[SocketAddr], no: usize) -> Res<Parts> {
    let to: Vec<SocketAddr> = x.to.iter().map(|i| addrs[*i as usize % addrs.len()]).collect();
    ask_at(subs, x, &to, no).await
}
const DEAD: u8 = 255;
async fn ask_at(subs: &[Arc<SubChannel>; 2], x: &Call, to: &[SocketAddr], no: usize) -> Res<Parts> {
    let s = &subs[x.service as usize];
    let p = request(x, no);
    let m = p.msg();
    let r: HandlerResult<RawMessage> = match x.how {
        How::Addr => return call(s, &p, to[0]).await,
        How::List => MessageChannel::send(&**s, m, &to[..]).await,
        How::Text => MessageChannel::send(&**s, m, to[0].to_string()).await,
    };
    use tchannel_rs::errors::HandlerError::*;
    match r {
        Ok(m) => Res::Ok(Parts::of(&m)),
        Err(MessageError(m)) => Res::Message(Parts::of(&m)),
        Err(e) => Res::Fail(format!("{e:?}")),
    }
}
fn reply(no: usize, ans: Ans) -> Parts {
    Parts::new(format!("r{no}"), "", if ans == Ans::Long { blob::bytes(no as u8, 70_000) } else { vec![7] })
}
fn judge(_c: &C, x: &Call, no: usize, r: Res<Parts>, what: &str) -> R {
    let want = reply(no, x.ans);
    match (x.ans, r) {
        (Ans::Ok | Ans::Long, r) => expect_ok(r, &want, &format!("{what}: call {no}")),
        (Ans::ErrorCode, Res::Message(p)) if p == want => Ok(()),
        (Ans::ErrorCode, Res::Fail(e)) => soft(format!("{what}: call {no} failed: {e}")),
        (Ans::ErrorFrame | Ans::Scheme | Ans::Short | Ans::Code, Res::Fail(_)) => Ok(()),
        // How a client takes these is the subject of other properties.
        (Ans::Code | Ans::Scheme | Ans::Short, _) => Ok(()),
        (a, r) => hard(format!("{what}: call {no}, answered with {a:?}, got {r:?}")),
    }
}
fn answer(no: usize, ans: Ans, id: u32) -> Vec<Frame> {
    let args = reply(no, ans).args();
    match ans {
        Ans::Ok => Msg::reply(0, "raw", args).whole(id),
        Ans::Long => Msg::reply(0, "raw", args).split(id, &Plan::default()),
        Ans::ErrorCode => Msg::reply(1, "raw", args).whole(id),
        Ans::ErrorFrame => vec![wire::error(id, 3, b"busy")],
        Ans::Scheme => Msg::reply(0, "json", args).whole(id),
        Ans::Short => vec![Frame::new(wire::CALL_RES, id, vec![0, 0, 0, 0, 0, 0])],
        Ans::Code => Msg::reply(9, "raw", args).whole(id),
    }
}
/// Runs a server: answers calls unless they are held, counts connections.
async fn serve(mut hub: Hub, me: usize, all: All, mut ctl: UnboundedReceiver<Ctl>, hold: Arc<Mutex<(bool, usize)>>) {
    let mut held: Vec<(usize, usize, u32, Ans)> = vec![];
    let mut lost = std::collections::BTreeSet::new();
    let bad = |s: String| {
        all.lock().unwrap()[me].bad.get_or_insert(s);
    };
    loop {
        tokio::select! {
            biased;
            c = ctl.recv() => match c {
                None => return,
                Some(Ctl::Release) => for (conn, no, id, ans) in held.drain(..) {
                    hub.send(conn, &answer(no, ans, id));
                },
                Some(Ctl::Answer(which)) => for (conn, no, id, ans) in held.drain(..) {
                    if no == which {
                        hub.send(conn, &answer(no, ans, id));
                    }
                },
                Some(Ctl::Lose(reset, done)) => {
                    let open: Vec<usize> = hub.open.iter().copied().collect();
                    for k in open {
                        hub.tell(k, if reset { Cmd::Reset } else { Cmd::Close });
                        lost.insert(k);
                        hub.open.remove(&k);
                        let s = &mut all.lock().unwrap()[me];
                        s.lost += 1;
                        s.open = hub.open.len();
                    }
                    let _ = done.send(());
                }
            },
            e = hub.next(60 * SECS) => match e {
                None => {}
                Some((_, Did::Open)) => {
                    let s = &mut all.lock().unwrap()[me];
                    s.accepted += 1;
                    s.open = hub.open.len();
                    s.most = s.most.max(hub.open.len());
                }
                Some((k, Did::End)) => {
                    let s = &mut all.lock().unwrap()[me];
                    s.open = hub.open.len();
                    if !lost.contains(&k) {
                        s.client_closed += 1;
                    }
                }
                Some((_, Did::Garbled(e))) => bad(format!("client sent {e}")),
                Some((k, Did::Frame(f))) => match hub.call(k, &f) {
                    Err(e) => bad(format!("{e:?}")),
                    Ok(None) => {}
                    Ok(Some(m)) => {
                        let parsed = || -> Option<(usize, usize, usize)> {
                            let no = std::str::from_utf8(&m.args[0]).ok()?.strip_prefix('c')?.parse().ok()?;
                            let (to, ans) = std::str::from_utf8(&m.args[1]).ok()?.split_once(' ')?;
                            Some((no, to.parse().ok()?, ans.parse().ok()?))
                        };
                        let Some((no, to, ans)) = parsed() else { bad("got a request nobody made".into()); continue };
                        {
                            let mut a = all.lock().unwrap();
                            if to == DEAD as usize {
                                a[me].bad.get_or_insert(format!("got call {no}, made to an address where nobody listens"));
                            }
                            if to % a.len() != me {
                                let n = a.len();
                                a[me].bad.get_or_insert(format!("got call {no}, made to server {}", to % n));
                            }
                            if a.iter().any(|s| s.calls.iter().any(|c| c.0 == no)) {
                                a[me].bad.get_or_insert(format!("got call {no} a second time"));
                            }
                        }
                        if lost.contains(&k) {
                            continue;
                        }
                        if hold.lock().unwrap().0 {
                            held.push((k, no, f.id, ANS[ans]));
                        } else {
                            hub.send(k, &answer(no, ANS[ans], f.id));
                        }
                        all.lock().unwrap()[me].calls.push((no, k));
                    }
                },
            },
        }
    }
}
