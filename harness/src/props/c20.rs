//! Connections are given up without harming calls: past their lifetime, or with the last handle of the client.
use super::prelude::*;
use peer::{Did, Hub};
use std::collections::BTreeMap;
use tchannel_rs::TChannel;
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver};
use tokio::task::JoinHandle;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    knobs: Knobs,
    life: Life,
    servers: u8,
    ops: Vec<Op>,
    /// In the end: calls still pending get answered (or their callers abandon them) after the handles are dropped.
    end: End,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Life {
    /// So short that any connection may be past it.
    Short,
    /// Long enough to keep a connection in use until then.
    Brief,
    /// Long enough to see that a connection is kept until then.
    Medium,
    Long,
    None,
    /// So many seconds, with all clocks under control.
    Secs(u32),
}
impl Life {
    fn limit(self) -> Option<Duration> {
        match self {
            Life::Short => Some(Duration::from_millis(2)),
            Life::Brief => Some(Duration::from_millis(60)),
            Life::Medium => Some(Duration::from_millis(400)),
            Life::Long => Some(Duration::from_secs(100_000)),
            Life::None => None,
            Life::Secs(0) => None,
            Life::Secs(n) => Some(Duration::from_secs(n as u64)),
        }
    }
    fn ends(self) -> bool {
        matches!(self, Life::Short | Life::Brief | Life::Medium)
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Concurrent calls to a server.
    Calls { to: u8, calls: Vec<Call> },
    /// One more pending call gets answered.
    Answer(u8),
    AnswerAll,
    /// One more pending call is dropped by its caller.
    Abandon(u8),
    /// All connections grow older than their lifetime, if there is one, (in use all the time,) and half a minute passes.
    Expire { busy: bool },
    /// Half a minute passes.
    Pass,
    /// A server sends the first part of a pending call's reply.
    Part(u8),
    /// So many seconds pass, where all clocks are under control.
    Wait(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    held: bool,
    service: bool,
    req: Arg,
    rep: Arg,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum End {
    Answered,
    Abandoned,
    /// The calls end before the handles are dropped.
    Before,
}
pub struct P;

#[derive(Default)]
struct Conn {
    ended: bool,
    since: Option<std::time::Instant>,
    /// When the last call arrived.
    used: Option<std::time::Instant>,
}
/// One server's view.
#[derive(Default)]
struct Seen {
    conns: Vec<Conn>,
    /// Calls arrived: number, connection, id.
    calls: BTreeMap<usize, (usize, u32)>,
    /// Connections known to have ended.
    early: std::collections::BTreeSet<usize>,
    bad: Option<String>,
}
type All = Arc<Mutex<Vec<Seen>>>;
enum Ctl {
    Frames(usize, Vec<Frame>),
}

impl Prop for P {
    type C = C;
    const ID: &'static str = "C20";
    const RULE: &'static str = "Histories of up to 10 operations of one client (maximum 1-4 connections, tested or not, lifetime 2 ms, 60 ms, 0.4 s, long or none, or 5 s to an hour of a clock moved ahead) and 1-2 scripted servers, with the clock under control: concurrent calls answered at once or held, pending calls answered in one or two parts or abandoned, half a minute passing with or without the connections growing older than the lifetime (idle, or in use until then), and in the end all handles of the client dropped with calls pending. Oracle: after expiry every connection with no call pending is closed by the client and those with pending calls are not, new calls go over new connections, no call fails, never more unexpired open connections than the maximum; without expiry none is closed; each connection is closed once its last pending call is done or the handles are dropped. Non-trivial: a call is pending when the connections expire or the handles are dropped.";
    const DEADLINE: u64 = 50_000_000;
    const REAL: u64 = 120;
    const THREADS: usize = 24;
    const LONG: usize = 16;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 12_000 } else { 300_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let steps = t.steps(1..=t.pick(10, 25, 0), 100..=300);
        let arg = || prop_oneof![9 => blob::small_arg(), 1 => blob::arg(140_000)];
        let call = (proptest::bool::weighted(0.6), any::<bool>(), arg(), arg()).prop_map(|(held, service, req, rep)| Call { held, service, req, rep });
        let large = t.pick(0, 0, 1);
        let op = prop_oneof![
            6 => (0u8..2, prop_oneof![3 => vec(call.clone(), 1..=1), 2 => vec(call.clone(), 2..=6), large => vec(call, 40..=120)]).prop_map(|(to, calls)| Op::Calls { to, calls }),
            2 => any::<u8>().prop_map(Op::Answer),
            1 => Just(Op::AnswerAll),
            1 => any::<u8>().prop_map(Op::Abandon),
            4 => any::<bool>().prop_map(|busy| Op::Expire { busy }),
            1 => Just(Op::Pass),
            1 => any::<u8>().prop_map(Op::Part),
        ];
        // Waits: seconds, or (in the second) thousandths of the lifetime.
        let part = prop_oneof![2 => 850u32..1000, 1 => 300u32..1_100];
        let wait = (prop_oneof![3 => 1u32..40, 3 => 20u32..90, 2 => 60u32..700, 1 => 600u32..8_000], proptest::option::of(part));
        let life = proptest::sample::select([&[Life::Short; 40][..], &[Life::Brief; 5], &[Life::Medium; 1], &[Life::Long; 6], &[Life::None; 3]].concat());
        let end = proptest::sample::select(vec![End::Answered, End::Answered, End::Abandoned, End::Before]);
        let secs = prop_oneof![2 => Just(60u32), 1 => Just(0u32), 2 => 5u32..120, 2 => 100u32..600, 1 => 600u32..4_000];
        (knobs(), any::<bool>(), life, (1u8..=2, proptest::option::weighted(0.4, secs)), vec((op, wait), steps), end).prop_map(|(mut knobs, test, mut life, (servers, secs), ops, end)| {
            knobs.test = test;
            // There, time passes more often.
            let ops = ops.into_iter().map(|(o, w)| match o {
                Op::Expire { .. } | Op::Pass if secs.is_some() => Op::Wait(match (w, secs) {
                    ((_, Some(part)), Some(s)) if s > 0 => (s as u64 * part as u64 / 1000) as u32,
                    _ => w.0,
                }),
                o => o,
            }).collect();
            if let Some(s) = secs {
                life = Life::Secs(s);
            }
            C { knobs, life, servers, ops, end }
        }).boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl = vec![match c.life { Life::Secs(0) => "lifetime None".into(), Life::Secs(_) => "lifetime of seconds to an hour".into(), l => format!("lifetime {l:?}") }, format!("end {:?}", c.end)];
        let mut pending = 0;
        let mut nt = false;
        for o in &c.ops {
            match o {
                Op::Calls { calls, .. } => pending += calls.iter().filter(|x| x.held).count(),
                Op::Answer(_) | Op::Abandon(_) => pending = pending.saturating_sub(1),
                Op::AnswerAll => pending = 0,
                Op::Expire { busy } if c.life.ends() => {
                    if *busy && c.life == Life::Brief {
                        cl.push("expired while in use".into());
                    }
                    cl.push(if pending > 0 { "expired with calls pending".into() } else { "expired".into() });
                    nt |= pending > 0;
                }
                Op::Expire { .. } => cl.push("grown older".into()),
                Op::Pass => cl.push("time passes".into()),
                Op::Part(_) => cl.push("reply in parts".into()),
                Op::Wait(w) => {
                    let over = c.life.limit().is_some_and(|l| l.as_secs() < *w as u64);
                    let near = c.life.limit().is_some_and(|l| !over && l.as_secs() * 8 <= *w as u64 * 10);
                    let more = if over { "more than the lifetime passes" } else if near { "nearly the lifetime passes" } else { "less than the lifetime passes" };
                    cl.push(format!("{more}{}{}", if pending > 0 { " with calls pending" } else { "" }, if *w > 630 { ", over ten minutes" } else { "" }));
                    nt |= pending > 0 && over;
                }
            }
        }
        if pending > 0 && c.end != End::Before {
            nt = true;
            cl.push("dropped with calls pending".into());
        }
        if c.knobs.test { cl.push("tested".into()); }
        cl.sort();
        cl.dedup();
        (nt, cl)
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(run(c, ctx))
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["With lifetimes below a second, half minutes pass by moving the runtime's clock, which only moves the pool's timer; the ages of connections are real. With longer ones all clocks are moved.".into()]
    }
}

struct Pending {
    no: usize,
    server: usize,
    task: JoinHandle<Res<Parts>>,
    reply: Vec<Frame>,
    want: Parts,
    sent: usize,
    /// Accepted before the last expiry.
    old: bool,
}
async fn pass_half_a_minute() {
    tokio::time::pause();
    tokio::time::advance(Duration::from_secs(31)).await;
    tokio::time::resume();
    tokio::task::yield_now().await;
}

async fn run(c: C, ctx: Ctx) -> R {
    let n = c.servers as usize;
    let all: All = Arc::new(Mutex::new((0..n).map(|_| Seen::default()).collect()));
    let mut addrs = vec![];
    let mut ctl = vec![];
    for i in 0..n {
        let addr = ctx.addr();
        let (tx, rx) = unbounded_channel();
        ctl.push(tx);
        tokio::spawn(serve(Hub::new(peer::listen(addr)?, true), i, all.clone(), rx));
        addrs.push(addr);
    }
    let cl = match TChannel::new(config_for(&c.knobs, SocketAddr::from(([127, 0, 0, 1], 9)), c.life.limit())) {
        Ok(c) => c,
        Err(e) => return hard(format!("TChannel::new: {e}")),
    };
    let subs = [sub(&cl, "svc").await?, sub(&cl, "other").await?];
    let mut pending: Vec<Pending> = vec![];
    let mut made = 0;
    // Connections of each server accepted before the last expiry.
    let mut old = vec![0; n];
    let send = |p: &mut Pending, upto: usize| {
        let at = all.lock().unwrap()[p.server].calls.get(&p.no).map(|x| x.0).unwrap_or(0);
        let f = p.reply[p.sent..upto].to_vec();
        p.sent = upto;
        let _ = ctl[p.server].send(Ctl::Frames(at, f));
    };
    for (k, op) in c.ops.iter().enumerate() {
        let what = format!("step {k}");
        match op {
            Op::Calls { to, calls } => {
                let s = *to as usize % n;
                let mut now = vec![];
                for x in calls {
                    let no = made;
                    made += 1;
                    let sub = subs[x.service as usize].clone();
                    let mut cur = Cursor::new(blob::request_room(5, 3) - 20);
                    let req = Parts { ep: format!("c{no}"), header: String::new(), body: x.req.bytes(&mut cur) };
                    let mut cur = Cursor::new(blob::response_room(0, 3) - 20);
                    let want = Parts { ep: format!("r{no}"), header: String::new(), body: x.rep.bytes(&mut cur) };
                    let addr = addrs[s];
                    let task = tokio::spawn(async move { call(&sub, &req, addr).await });
                    now.push((x.held, Pending { no, server: s, task, reply: vec![], want, sent: 0, old: false }));
                }
                if !eventually(8000, || {
                    let a = all.lock().unwrap();
                    a[s].bad.is_some() || now.iter().all(|(_, p)| a[s].calls.contains_key(&p.no))
                })
                .await
                {
                    return soft(format!("{what}: the requests do not arrive"));
                }
                sound(&all, &what)?;
                for (held, mut p) in now {
                    let (conn, id) = all.lock().unwrap()[s].calls[&p.no];
                    let age = all.lock().unwrap()[s].conns[conn].since.map(|t| t.elapsed()).unwrap_or_default();
                    if conn < old[s] && c.life.ends() || matches!(c.life, Life::Secs(n) if n > 0 && age > Duration::from_secs(n as u64 + 32)) {
                        return soft(format!("{what}: call {} made over an expired connection", p.no));
                    }
                    let m = Msg::reply(0, "raw", p.want.args());
                    // In two frames where it is to be sent in parts.
                    p.reply = m.split(id, &Plan { cuts: vec![wire::Cut::At(30_000)], ..Plan::default() });
                    if !held {
                        let l = p.reply.len();
                        send(&mut p, l);
                        done(p, &what).await?;
                    } else {
                        pending.push(p);
                    }
                }
            }
            Op::Answer(i) | Op::Abandon(i) | Op::Part(i) if !pending.is_empty() => {
                let i = *i as usize % pending.len();
                match op {
                    Op::Part(_) => {
                        let p = &mut pending[i];
                        if p.sent == 0 {
                            send(p, 1);
                        }
                    }
                    Op::Answer(_) => {
                        let mut p = pending.swap_remove(i);
                        let l = p.reply.len();
                        send(&mut p, l);
                        done(p, &what).await?;
                    }
                    _ => {
                        let p = pending.swap_remove(i);
                        p.task.abort();
                        let _ = p.task.await;
                    }
                }
            }
            Op::AnswerAll => {
                for mut p in pending.drain(..) {
                    let l = p.reply.len();
                    send(&mut p, l);
                    done(p, &what).await?;
                }
            }
            Op::Expire { busy } if c.life.ends() => {
                // Connections being set up come to be.
                tokio::time::sleep(Duration::from_millis(4)).await;
                for (s, o) in old.iter_mut().enumerate() {
                    *o = all.lock().unwrap()[s].conns.len();
                }
                let t = std::time::Instant::now();
                let life = c.life.limit().unwrap() + Duration::from_millis(1);
                while *busy && t.elapsed() < life {
                    // Pings of the client would not do: they are part of calls.
                    for s in 0..n {
                        let no = made;
                        made += 1;
                        let (sub, addr, want) = (subs[0].clone(), addrs[s], Parts::new("r", "", ""));
                        let req = Parts::new(format!("c{no}"), "", "");
                        let mut p = Pending { no, server: s, task: tokio::spawn(async move { call(&sub, &req, addr).await }), reply: vec![], want, sent: 0, old: false };
                        if !eventually(8000, || all.lock().unwrap()[s].calls.contains_key(&no)).await {
                            return soft(format!("{what}: the request does not arrive"));
                        }
                        let (_, id) = all.lock().unwrap()[s].calls[&no];
                        p.reply = Msg::reply(0, "raw", p.want.args()).whole(id);
                        let l = p.reply.len();
                        send(&mut p, l);
                        done(p, &what).await?;
                    }
                    tokio::time::sleep(life / 4).await;
                }
                if !*busy {
                    tokio::time::sleep(life).await;
                }
                for p in &mut pending {
                    p.old = true;
                }
                pass_half_a_minute().await;
                // A connection which took its time to be set up may have been too young.
                for _ in 0..2 {
                    if !eventually(60, || all.lock().unwrap().iter().enumerate().all(|(s, a)| (0..old[s]).all(|k| a.conns[k].ended || a.calls.values().any(|x| x.0 == k)))).await {
                        tokio::time::sleep(c.life.limit().unwrap()).await;
                        pass_half_a_minute().await;
                    }
                }
            }
            Op::Wait(w) if matches!(c.life, Life::Secs(_)) => {
                // Connections being set up come to be.
                tokio::time::sleep(Duration::from_millis(1)).await;
                crate::clock::pass(Duration::from_secs(*w as u64));
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            Op::Expire { .. } | Op::Pass => pass_half_a_minute().await,
            _ => {}
        }
        // What a connection at rest past its lifetime is for: nothing.
        settled(&all, &old, &pending, &c, &what).await?;
    }
    let what = "in the end";
    if c.end == End::Before {
        for mut p in pending.drain(..) {
            let l = p.reply.len();
            send(&mut p, l);
            done(p, what).await?;
        }
    }
    drop(subs);
    drop(cl);
    tokio::time::sleep(Duration::from_millis(1)).await;
    sound(&all, what)?;
    for mut p in pending {
        if c.end == End::Abandoned && p.no % 2 == 0 {
            p.task.abort();
            let _ = p.task.await;
        } else {
            let l = p.reply.len();
            send(&mut p, l);
            done(p, what).await?;
        }
    }
    if !eventually(8000, || all.lock().unwrap().iter().all(|s| s.conns.iter().all(|c| c.ended))).await {
        return soft("connections stay open after all handles of the client are gone");
    }
    sound(&all, what)
}
fn sound(all: &All, what: &str) -> R {
    match all.lock().unwrap().iter().enumerate().find_map(|(i, s)| s.bad.as_ref().map(|b| format!("{what}: server {i}: {b}"))) {
        Some(b) => hard(b),
        None => Ok(()),
    }
}
async fn done(p: Pending, what: &str) -> R {
    match tokio::time::timeout(8 * SECS, p.task).await {
        Err(_) => soft(format!("{what}: call {} does not return though answered", p.no)),
        Ok(Err(e)) => hard(format!("{what}: call {}: {e}", p.no)),
        Ok(Ok(r)) => expect_ok(r, &p.want, &format!("{what}: call {}{}", p.no, if p.old { ", pending on an expired connection," } else { "" })),
    }
}
async fn settled(all: &All, old: &[usize], pending: &[Pending], c: &C, what: &str) -> R {
    sound(all, what)?;
    let busy = |s: usize, conn: usize| {
        let a = all.lock().unwrap();
        pending.iter().any(|p| p.server == s && a[s].calls.get(&p.no).map(|x| x.0) == Some(conn))
    };
    if let Life::Secs(n) = c.life {
        let life = if n == 0 { Duration::MAX } else { Duration::from_secs(n as u64) };
        for s in 0..old.len() {
            let of = |conn: usize| {
                let a = all.lock().unwrap();
                let c = &a[s].conns[conn];
                (c.ended, c.since.map(|t| t.elapsed()).unwrap_or_default(), c.used.or(c.since).map(|t| t.elapsed()).unwrap_or_default())
            };
            let number = all.lock().unwrap()[s].conns.len();
            for conn in 0..number {
                let (ended, age, unused) = of(conn);
                if busy(s, conn) && ended {
                    return hard(format!("{what}: connection {conn} to server {s} was closed with a call pending on it"));
                }
                if !busy(s, conn) && age > life.saturating_add(32 * SECS) && !eventually(8000, || of(conn).0).await {
                    return soft(format!("{what}: connection {conn} to server {s} stays open past its lifetime, with no call pending"));
                }
                // What has ended stays in the list, and gets older: only look at once.
                let known = all.lock().unwrap()[s].early.contains(&conn);
                if ended && !known {
                    all.lock().unwrap()[s].early.insert(conn);
                    if age + SECS < life && unused < 599 * SECS {
                        return hard(format!("{what}: connection {conn} to server {s} was closed {age:?} after it was opened and {unused:?} after its last call"));
                    }
                }
            }
            let new = (0..number).map(of).filter(|c| !c.0 && c.1 < life && c.2 < 599 * SECS).count();
            if new > c.knobs.conns as usize {
                return hard(format!("{what}: {new} unexpired connections to server {s}, {} allowed", c.knobs.conns));
            }
        }
        return Ok(());
    }
    for s in 0..old.len() {
        for conn in 0..old[s] {
            if !busy(s, conn) && !eventually(8000, || all.lock().unwrap()[s].conns[conn].ended).await {
                return soft(format!("{what}: connection {conn} to server {s} stays open past its lifetime, with no call pending"));
            }
        }
        let a = all.lock().unwrap();
        let open: Vec<usize> = (0..a[s].conns.len()).filter(|k| !a[s].conns[*k].ended).collect();
        for k in pending.iter().filter(|p| p.server == s).filter_map(|p| a[s].calls.get(&p.no)).map(|x| x.0) {
            if a[s].conns[k].ended {
                drop(a);
                return hard(format!("{what}: connection {k} to server {s} was closed with a call pending on it"));
            }
        }
        let keeps = match c.life {
            Life::Short | Life::Brief => false,
            // No connection so young may have been given up.
            Life::Medium => a[s].conns.iter().skip(old[s]).all(|c| c.since.is_some_and(|t| t.elapsed() < Duration::from_millis(300))),
            _ => true,
        };
        if keeps && a[s].conns.iter().skip(old[s]).any(|c| c.ended) {
            return hard(format!("{what}: a connection to server {s} was closed before its lifetime"));
        }
        let new = open.iter().filter(|k| **k >= old[s]).count();
        if keeps && new > c.knobs.conns as usize {
            return hard(format!("{what}: {new} unexpired connections to server {s}, {} allowed", c.knobs.conns));
        }
    }
    Ok(())
}
/// Runs a server which only notes what arrives, and sends what it is told to.
async fn serve(mut hub: Hub, me: usize, all: All, mut ctl: UnboundedReceiver<Ctl>) {
    let bad = |s: String| {
        all.lock().unwrap()[me].bad.get_or_insert(s);
    };
    loop {
        tokio::select! {
            biased;
            c = ctl.recv() => match c {
                None => return,
                Some(Ctl::Frames(conn, f)) => hub.send(conn, &f),
            },
            e = hub.next(60 * SECS) => match e {
                None => {}
                Some((_, Did::Open)) => all.lock().unwrap()[me].conns.push(Conn { ended: false, since: Some(std::time::Instant::now()), used: None }),
                Some((k, Did::End)) => {
                    all.lock().unwrap()[me].conns[k].ended = true;
                    hub.tell(k, peer::Cmd::Close);
                }
                Some((_, Did::Garbled(e))) => bad(format!("client sent {e}")),
                Some((k, Did::Frame(f))) if f.ty == wire::PING_REQ => hub.send(k, &[Frame::new(wire::PING_RES, f.id, vec![])]),
                Some((k, Did::Frame(f))) => match hub.call(k, &f) {
                    Err(e) => bad(format!("{e:?}")),
                    Ok(None) => {}
                    Ok(Some(m)) => match std::str::from_utf8(&m.args[0]).ok().and_then(|s| s.strip_prefix('c')?.parse().ok()) {
                        None => bad("got a request nobody made".into()),
                        Some(no) => {
                            all.lock().unwrap()[me].conns[k].used = Some(std::time::Instant::now());
                            if all.lock().unwrap()[me].calls.insert(no, (k, f.id)).is_some() {
                                bad(format!("got call {no} a second time"));
                            }
                        }
                    },
                },
            },
        }
    }
}
