//! The server runs exactly between start and shutdown.
use super::prelude::*;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use tchannel_rs::messages::RawMessage;
use tchannel_rs::{SubChannel, TChannel};
use tokio::net::TcpStream;
use tokio::sync::Notify;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C {
    History { knobs: Knobs, workers: u8, ops: Vec<Step> },
    /// A server process with file handles for `room` connections gets `conns` at once, of which some are closed after.
    Handles { room: u8, over: u8, closed: u8, early: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    op: Op,
    /// Look at the state afterwards (otherwise the next operation follows immediately).
    look: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// From so many tasks at once.
    Start(u8),
    Shutdown(u8),
    /// From a thread outside of the runtime.
    ShutdownOutside,
    /// Shutdown and start right afterwards.
    Restart,
    Register(u8),
    Unregister(u8),
    Call(u8),
    /// A call from a client which is kept.
    Kept(u8),
    /// Drops the channel, keeping a subchannel of it or not, and makes a new one for the same address.
    Renew {
        keep_sub: bool,
        /// Dropped by a thread outside of the runtime.
        #[serde(default)]
        outside: bool,
    },
    /// A connection on which a call is being handled during the next operations, until `Finish`.
    Begin,
    Finish,
    /// Clients that connect and go away.
    Visitors(u8),
    /// Clients that connect and stay, some of them after a handshake.
    Crowd(u16),
    Yield(u8),
}
pub struct P;

/// A process being started holds copies of this one's sockets for a moment, which keeps their addresses taken.
static SPAWNING: std::sync::OnceLock<tokio::sync::RwLock<()>> = std::sync::OnceLock::new();

struct Server {
    ch: Option<Arc<TChannel>>,
    sub: Arc<SubChannel>,
    /// Calls by endpoint, where registered.
    counts: [Option<usize>; 3],
    go: Arc<Notify>,
    entered: Arc<Notify>,
}
async fn server(k: &Knobs, addr: SocketAddr) -> R<Server> {
    let ch = channel(k, addr)?;
    let s = sub(&ch, "svc").await?;
    let (go, entered) = (Arc::new(Notify::new()), Arc::new(Notify::new()));
    let (g, e) = (go.clone(), entered.clone());
    register_async(&s, "stall", move |m: RawMessage| {
        let (g, e) = (g.clone(), e.clone());
        Box::pin(async move {
            e.notify_one();
            g.notified().await;
            Ok(m)
        }) as Reply<_>
    }).await?;
    Ok(Server { ch: Some(Arc::new(ch)), sub: s, counts: [None; 3], go, entered })
}

impl Prop for P {
    type C = C;
    const ID: &'static str = "C16";
    const RULE: &'static str = "Histories of up to 16 operations on a channel (start and shutdown, from several tasks at once, restart at once, drop and renewal, registrations, calls from fresh and kept clients and from one being served meanwhile, visitors, crowds of up to 120 clients which stay), on single- and multi-threaded runtimes, each followed by a look at whether the address accepts connections, or directly by the next. Oracle: running flag and handler call counts. And server processes which run out of file handles for a while. Non-trivial: a server is started again, an operation refused, or handles run out.";
    const THREADS: usize = 32;
    const LONG: usize = 16;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 20_000 } else { 600_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let steps = t.steps(1..=t.pick(16, 40, 0), 300..=1500);
        let n = || prop_oneof![5 => Just(1u8), 1 => 2u8..=4];
        let op = prop_oneof![
            80 => n().prop_map(Op::Start),
            50 => n().prop_map(Op::Shutdown),
            10 => Just(Op::ShutdownOutside),
            30 => Just(Op::Restart),
            30 => (0u8..3).prop_map(Op::Register),
            10 => (0u8..3).prop_map(Op::Unregister),
            40 => (0u8..3).prop_map(Op::Call),
            30 => (0u8..3).prop_map(Op::Kept),
            20 => (any::<bool>(), proptest::bool::weighted(0.3)).prop_map(|(keep_sub, outside)| Op::Renew { keep_sub, outside }),
            10 => Just(Op::Begin),
            10 => Just(Op::Finish),
            10 => (1u8..6).prop_map(Op::Visitors),
            1 => (20u16..120).prop_map(Op::Crowd),
            10 => (1u8..4).prop_map(Op::Yield),
        ];
        let step = (op, proptest::bool::weighted(0.6)).prop_map(|(op, look)| Step { op, look });
        let history = (knobs(), prop_oneof![1 => Just(0u8), 2 => 1u8..=4], vec(step, steps)).prop_map(|(knobs, workers, ops)| C::History { knobs, workers, ops });
        let handles = (1u8..5, 1u8..6, any::<u8>(), 0u8..3).prop_map(|(room, over, closed, early)| C::Handles { room, over, closed, early });
        prop_oneof![400 => history, 1 => handles].boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl = vec![];
        let C::History { ops, .. } = c else { return (true, vec!["file handles run out".into()]) };
        let (mut running, mut nt) = (false, false);
        let mut started = 0;
        for s in ops {
            match s.op {
                Op::Start(n) => {
                    if running || n > 1 {
                        nt = true;
                        cl.push("start refused".to_string());
                    }
                    if !running {
                        started += 1;
                    }
                    running = true;
                }
                Op::Shutdown(_) | Op::ShutdownOutside => {
                    if !running {
                        cl.push("shutdown of a stopped server".into());
                    }
                    running = false;
                }
                Op::Restart => {
                    started += 1;
                    running = true;
                    cl.push("restart at once".into());
                }
                Op::Renew { .. } => {
                    running = false;
                    cl.push("drop".into());
                }
                Op::Begin => cl.push("served meanwhile".into()),
                Op::Crowd(_) => cl.push("crowd".into()),
                _ => {}
            }
        }
        if started > 1 {
            nt = true;
            cl.push("started again".into());
        }
        cl.sort();
        cl.dedup();
        (nt, cl)
    }
    fn rt(&self, c: &C) -> Rt {
        match c {
            C::History { workers, .. } if *workers > 0 => Rt::Multi(*workers as usize),
            _ => Rt::Current,
        }
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            match c {
                C::History { knobs, ops, .. } => {
                    let _spawning = SPAWNING.get_or_init(Default::default).read().await;
                    history(knobs, ops, ctx).await
                }
                C::Handles { room, over, closed, early } => handles(room, over, closed, early, ctx).await,
            }
        })
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["No other process uses the configured address.".into()]
    }
}

async fn refused(addr: SocketAddr) -> bool {
    match TcpStream::connect(addr).await {
        Ok(s) => {
            // Bound as a port of its own: loopback's self-connection.
            s.local_addr().ok() == s.peer_addr().ok()
        }
        Err(e) => e.kind() == std::io::ErrorKind::ConnectionRefused,
    }
}
async fn wait_stopped(addr: SocketAddr, what: &str) -> R {
    for i in 0..1500 {
        if refused(addr).await {
            return Ok(());
        }
        tokio::time::sleep(Duration::from_micros(if i < 50 { 100 } else { 2000 })).await;
    }
    hard(format!("{what}: connections are still accepted"))
}
async fn several(ch: &Arc<TChannel>, n: u8, f: fn(&TChannel) -> bool) -> R<usize> {
    if n == 1 {
        return Ok(f(ch) as usize);
    }
    let ts: Vec<_> = (0..n).map(|_| { let ch = ch.clone(); tokio::spawn(async move { f(&ch) }) }).collect();
    let mut ok = 0;
    for t in ts {
        match t.await {
            Ok(b) => ok += b as usize,
            Err(e) => return hard(format!("{e}")),
        }
    }
    Ok(ok)
}
#[derive(Clone, Copy, PartialEq)]
enum At {
    Free,
    Starting,
    Bound,
    Stopping,
    Unsure,
}
async fn history(knobs: Knobs, ops: Vec<Step>, ctx: Ctx) -> R {
    let mut addr = ctx.addr();
    let mut sv = server(&knobs, addr).await?;
    let mut running = false;
    // Whether the state of the address is known: a server stopped while it starts may use the address
    // once more after it was found free.
    let mut at = At::Free;
    let mut kept = sub(&client(&knobs)?, "svc").await?;
    let mut used = false;
    let mut begun: Option<tokio::task::JoinHandle<Res<Parts>>> = None;
    let mut crowd: Vec<TcpStream> = vec![];
    for (i, st) in ops.iter().enumerate() {
        let what = format!("step {i} {:?}", st.op);
        let ch = sv.ch.clone().unwrap();
        match st.op {
            Op::Start(n) => {
                let ok = several(&ch, n, |c| c.start_server().is_ok()).await?;
                if ok != !running as usize {
                    return hard(format!("{what}: {ok} starts accepted of a server {}", if running { "running" } else { "not running" }));
                }
                if !running {
                    at = if at == At::Free { At::Starting } else { At::Unsure };
                }
                running = true;
            }
            Op::Shutdown(_) | Op::ShutdownOutside => {
                let (ok, n) = match st.op {
                    Op::Shutdown(n) => (several(&ch, n, |c| c.shutdown_server().is_ok()).await?, n),
                    _ => {
                        let ch = ch.clone();
                        match std::thread::spawn(move || ch.shutdown_server().is_ok()).join() {
                            Ok(ok) => (ok as usize, 1),
                            Err(_) => return hard(format!("{what}: panic")),
                        }
                    }
                };
                if ok != n as usize {
                    return hard(format!("{what}: shutdown failed"));
                }
                if running {
                    at = if at == At::Bound { At::Stopping } else { At::Unsure };
                }
                running = false;
            }
            Op::Restart => {
                if ch.shutdown_server().is_err() {
                    return hard(format!("{what}: shutdown failed"));
                }
                if let Err(e) = ch.start_server() {
                    return hard(format!("{what}: start of a stopped server refused: {e}"));
                }
                at = At::Unsure;
                running = true;
            }
            Op::Register(k) => {
                let n = AtomicUsize::new(0);
                let r = sv.sub.register(format!("e{k}"), Plain(Arc::new(move |m: RawMessage| {
                    let p = Parts::of(&m);
                    Ok(Parts::new(p.ep, p.header, format!("{}", n.fetch_add(1, Ordering::SeqCst))).msg())
                }))).await;
                if r.is_ok() != sv.counts[k as usize].is_none() {
                    return hard(format!("{what}: registration {}", if r.is_ok() { "accepted though taken" } else { "refused" }));
                }
                sv.counts[k as usize].get_or_insert(0);
            }
            Op::Unregister(k) => {
                let r = sv.sub.unregister(format!("e{k}")).await;
                if r.is_ok() != sv.counts[k as usize].is_some() {
                    return hard(format!("{what}: {:?}", r.err()));
                }
                sv.counts[k as usize] = None;
            }
            Op::Call(k) | Op::Kept(k) => {
                let kept_call = matches!(st.op, Op::Kept(_));
                if running {
                    wait_listening(addr).await?;
                } else if kept_call && used {
                    // Whether connections made before a shutdown are served further is not specified.
                    continue;
                } else {
                    wait_stopped(addr, &what).await?;
                    continue;
                }
                let cl = client(&knobs)?;
                let cs = if kept_call { kept.clone() } else { sub(&cl, "svc").await? };
                used |= kept_call;
                let p = Parts::new(format!("e{k}"), "h", "b");
                let r = call(&cs, &p, addr).await;
                match &mut sv.counts[k as usize] {
                    Some(n) => {
                        let want = Parts::new(p.ep, "h", format!("{n}"));
                        *n += 1;
                        expect_ok(r, &want, &what)?;
                    }
                    None => match r {
                        Res::Fail(_) => {}
                        r => return hard(format!("{what}: got {r:?} without a handler")),
                    },
                }
            }
            Op::Renew { keep_sub, outside } => {
                drop(ch);
                crowd.clear();
                let was = running;
                running = false;
                // A call being handled by the old channel's handlers: let it end.
                finish(&mut begun, &sv, &what).await?;
                let c = sv.ch.take().unwrap();
                match Arc::try_unwrap(c) {
                    Ok(c) if outside => {
                        if std::thread::spawn(move || drop(c)).join().is_err() {
                            return hard(format!("{what}: panic"));
                        }
                    }
                    Ok(c) => drop(c),
                    Err(_) => return soft("harness keeps the channel"),
                }
                // Checked even if nothing else is: another channel is about to use the address.
                wait_stopped(addr, &format!("{what} ({})", if was { "was running" } else { "was not running" })).await?;
                if was && at == At::Bound {
                    at = At::Free;
                }
                if at != At::Free {
                    addr = ctx.addr();
                    at = At::Free;
                }
                let new = server(&knobs, addr).await?;
                let old = std::mem::replace(&mut sv, new);
                if keep_sub {
                    if old.sub.register("late", Plain(Arc::new(|m: RawMessage| Ok(m)))).await.is_err() {
                        return hard(format!("{what}: registration on a kept subchannel refused"));
                    }
                }
                // Its connections are still served by what the old channel left, which is not specified.
                kept = sub(&client(&knobs)?, "svc").await?;
                used = false;
                continue;
            }
            Op::Begin => {
                if begun.is_none() && running {
                    wait_listening(addr).await?;
                    let cl = client(&knobs)?;
                    let cs = sub(&cl, "svc").await?;
                    begun = Some(tokio::spawn(async move {
                        let _cl = cl;
                        call(&cs, &Parts::new("stall", "h", "b"), addr).await
                    }));
                    if tokio::time::timeout(8 * SECS, sv.entered.notified()).await.is_err() {
                        return soft(format!("{what}: call does not reach its handler"));
                    }
                }
            }
            Op::Finish => finish(&mut begun, &sv, &what).await?,
            Op::Visitors(n) => {
                if running {
                    wait_listening(addr).await?;
                }
                for j in 0..n {
                    if let Ok(mut r) = Raw::connect(addr).await {
                        match j % 3 {
                            0 => r.reset().await,
                            1 => {
                                let _ = r.try_send(&[0, 3, 1, 2, 3]).await;
                                r.close().await;
                            }
                            _ => r.close().await,
                        }
                    }
                }
            }
            Op::Crowd(n) => {
                crowd.clear();
                if running {
                    wait_listening(addr).await?;
                    for j in 0..n {
                        let s = match tokio::time::timeout(8 * SECS, TcpStream::connect(addr)).await {
                            Ok(Ok(s)) => s,
                            e => return soft(format!("{what}: connection {j}: {e:?}")),
                        };
                        let hello = wire::init(wire::INIT_REQ, 1, 2, &[]).enc();
                        let _ = s.try_write(&hello[..[hello.len(), 0, 9][j as usize % 3]]);
                        crowd.push(s);
                    }
                }
            }
            Op::Yield(n) => {
                for _ in 0..n {
                    tokio::task::yield_now().await;
                }
            }
        }
        if st.look {
            look(running, addr, &what).await?;
            at = match at {
                At::Starting => At::Bound,
                At::Stopping => At::Free,
                at => at,
            };
        }
    }
    look(running, addr, "in the end").await?;
    if running {
        // Survived everything: state too.
        for k in 0..3 {
            if let Some(n) = sv.counts[k] {
                let cl = client(&knobs)?;
                let cs = sub(&cl, "svc").await?;
                let r = call(&cs, &Parts::new(format!("e{k}"), "h", "b"), addr).await;
                expect_ok(r, &Parts::new(format!("e{k}"), "h", format!("{n}")), "in the end")?;
            }
        }
    }
    finish(&mut begun, &sv, "in the end").await?;
    let was = running;
    drop(sv);
    wait_stopped(addr, if was { "after the drop of a running server" } else { "after the drop of a stopped server" }).await?;
    Ok(())
}
/// The handler at work is let go. Its call gets its reply if it is answered at all: what happens to
/// connections when the server is shut down is not specified.
async fn finish(begun: &mut Option<tokio::task::JoinHandle<Res<Parts>>>, sv: &Server, what: &str) -> R {
    if let Some(t) = begun.take() {
        sv.go.notify_one();
        match tokio::time::timeout(8 * SECS, t).await {
            Ok(Ok(Res::Ok(p))) if p == Parts::new("stall", "h", "b") => {}
            Ok(Ok(Res::Fail(_))) => {}
            Ok(Ok(r)) => return hard(format!("{what}: the call being served meanwhile got {r:?}")),
            Ok(Err(e)) => return hard(format!("{what}: {e}")),
            Err(_) => return soft(format!("{what}: the call being served meanwhile does not return")),
        }
    }
    Ok(())
}
async fn look(running: bool, addr: SocketAddr, what: &str) -> R {
    if running {
        if let Err(Bad::Soft(e)) = wait_listening(addr).await {
            return soft(format!("{what}: {e}, though the server was started"));
        }
        // It speaks, too. The first connections may have been to a server being stopped.
        for i in 0.. {
            match Raw::client(addr).await {
                Ok(r) => {
                    r.close().await;
                    break;
                }
                Err(Bad::Soft(e)) if i == 200 => return soft(format!("{what}: {e}, though the server was started")),
                Err(Bad::Soft(_)) => tokio::time::sleep(Duration::from_millis(2 + i / 10)).await,
                e => return e.map(|_| ()),
            }
        }
    } else {
        wait_stopped(addr, what).await?;
        tokio::time::sleep(Duration::from_micros(500)).await;
        if !refused(addr).await {
            return soft(format!("{what}: a stopped server accepts connections again"));
        }
    }
    Ok(())
}

/// A server in a process of its own, which may open only so many connections at a time.
struct Child(std::process::Child);
impl Drop for Child {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
pub fn child(addr: SocketAddr, room: u64) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    rt.block_on(async {
        let sv = channel(&Knobs::default(), addr).unwrap_or_else(|_| panic!("channel"));
        let s = sub(&sv, "svc").await.unwrap_or_else(|_| panic!("subchannel"));
        let _ = register(&s, "e", true, |m: RawMessage| Ok(m)).await;
        if start(&sv, addr).await.is_err() {
            return;
        }
        // What is open already counts too.
        tokio::time::sleep(Duration::from_millis(2)).await;
        let open = std::fs::read_dir("/proc/self/fd").map(|d| d.count() as u64 - 1).unwrap_or(64);
        let lim = libc::rlimit { rlim_cur: open + room, rlim_max: open + room };
        unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &lim) };
        println!("ready");
        let _ = std::io::stdout().flush();
        // Until the other end of stdin is closed.
        std::thread::spawn(|| {
            let _ = std::io::stdin().read(&mut [0u8; 1]);
            std::process::exit(0);
        });
        tokio::time::sleep(60 * SECS).await;
    });
}
async fn handles(room: u8, over: u8, closed: u8, early: u8, ctx: Ctx) -> R {
    let addr = ctx.addr();
    let Ok(exe) = std::env::current_exe() else { return Ok(()) };
    let alone = SPAWNING.get_or_init(Default::default).write().await;
    let spawned = std::process::Command::new(exe)
        .args(["serve", &addr.to_string(), &room.to_string()])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn();
    let mut child = match spawned {
        Ok(c) => Child(c),
        Err(e) => return soft(format!("harness cannot start a process: {e}")),
    };
    drop(alone);
    let mut out = child.0.stdout.take().unwrap();
    let mut word = [0u8; 6];
    if out.read_exact(&mut word).is_err() {
        return soft("the server process does not come up");
    }
    for _ in 0..early {
        Raw::client(addr).await?.close().await;
    }
    let mut conns = vec![];
    for _ in 0..room + over {
        match Raw::connect(addr).await {
            Ok(mut r) => {
                r.send(&wire::init(wire::INIT_REQ, 1, 2, &[])).await?;
                conns.push(r);
            }
            Err(e) => return soft(format!("connecting while handles run out: {e}")),
        }
    }
    // Until those with a handle are welcomed.
    let mut welcomed = 0;
    for r in conns.iter_mut() {
        match r.next(Duration::from_millis(60)).await {
            Ev::Frame(f) if f.ty == wire::INIT_RES => welcomed += 1,
            Ev::Quiet => break,
            e => return soft(format!("connection {welcomed} got {}", e.show())),
        }
    }
    let n = 1 + closed as usize % conns.len();
    for r in conns.drain(..n) {
        r.close().await;
    }
    if n < over as usize + 1 {
        // Still none to spare: close the rest too.
        for r in conns.drain(..) {
            r.close().await;
        }
    }
    let t = std::time::Instant::now();
    loop {
        if let Ok(mut r) = Raw::connect(addr).await {
            let _ = r.send(&wire::init(wire::INIT_REQ, 1, 2, &[])).await;
            if let Ev::Frame(f) = r.next(SECS).await {
                if f.ty == wire::INIT_RES {
                    let b = wire::enc_all(&Msg::request("svc", "raw", [b"e".to_vec(), vec![], vec![]]).whole(7));
                    r.send_bytes(&b).await?;
                    let mut inbox = peer::Inbox::default();
                    r.collect(&mut inbox, "after handles ran out", |i| i.has(7)).await?;
                    return if inbox.of(7)[0].is_error() { soft("call failed after handles ran out") } else { Ok(()) };
                }
            }
        } else {
            tokio::time::sleep(Duration::from_millis(20)).await;
        }
        if t.elapsed() > 6 * SECS {
            return soft(format!("the server (welcomed {welcomed} of {} connections) accepts no connection after {n} were closed", room + over));
        }
    }
}
