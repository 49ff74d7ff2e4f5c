//! Calls are routed by the registered service and endpoint.
use super::prelude::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::Weak;
use tchannel_rs::messages::RawMessage;
use tchannel_rs::{SubChannel, TChannel};
use tokio::sync::Notify;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    knobs: Knobs,
    workers: u8,
    services: Vec<Name>,
    endpoints: Vec<Name>,
    ops: Vec<Op>,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Name {
    Text(String),
    /// So many times the letter.
    Long(u32, char),
}
impl Name {
    fn get(&self) -> String {
        match self {
            Name::Text(s) => s.clone(),
            Name::Long(n, c) => c.to_string().repeat(*n as usize),
        }
    }
}
/// A name on one of the channels, as indices (modulo).
type At = (u8, u8, u8);
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Asks for a subchannel from so many tasks at once.
    Sub { at: At, n: u8 },
    Register { at: At, kind: Kind, n: u8 },
    Unregister { at: At, n: u8 },
    Call { at: At },
    /// A call on a raw connection, with some bytes behind its service and endpoint.
    Wire { at: At, service: Vec<u8>, endpoint: Vec<u8>, plan: Plan },
    /// Calls to all names at once.
    All { ch: u8 },
    /// A call still being handled while its handler is unregistered, and another one takes its place.
    Stall { at: At, again: bool },
    /// Registrations and unregistrations of a name while calls are made to all names.
    Churn { at: At, rounds: u8, calls: u8 },
    /// An operation abandoned at some point.
    Gone { at: At, what: Gone, steps: u8 },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Gone {
    Sub,
    Register,
    Unregister,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Kind {
    Plain,
    Async,
    /// Async, yielding while handling.
    Slow,
}
pub struct P;

type Key = (usize, String, String);
struct Handler {
    tag: usize,
    count: usize,
    alive: Weak<()>,
}

fn name() -> impl Strategy<Value = Name> {
    let near = proptest::sample::select(vec!["", "e", "E", "ee", " e", "e ", "e\0", "e\n", "é", "e\u{301}", "ſ", "s", "svc", "svc2", "Svc", "\u{feff}svc", "svc/e", "svc::e", "*", ".*", "\u{ff45}"]);
    prop_oneof![
        8 => near.prop_map(|s| Name::Text(s.into())),
        1 => any::<String>().prop_map(Name::Text),
        1 => (prop_oneof![120u32..140, 254u32..=255], proptest::sample::select(vec!['a', 'b'])).prop_map(|(n, c)| Name::Long(n, c)),
    ]
}
async fn wire_call(raw: &mut Raw, id: u32, m: Msg, plan: &Plan) -> R<peer::Answer> {
    let b = wire::enc_all(&m.split(id, plan));
    raw.send_bytes(&b).await?;
    let mut inbox = peer::Inbox::default();
    raw.collect(&mut inbox, "raw call", |i| i.has(id)).await?;
    Ok(inbox.of(id)[0].clone())
}

impl Prop for P {
    type C = C;
    const ID: &'static str = "C15";
    const RULE: &'static str = "Histories of up to 24 operations (subchannel, register, register_async, unregister, calls from a client and from a raw connection, each optionally from up to 4 tasks at once; calls still being handled when their handler is unregistered; registration churn under calls; operations abandoned at one of their awaits) on two channels with 1-4 services and 1-5 endpoints, from an alphabet of near-identical names (case, whitespace, control characters, normalization forms, prefixes, empty, up to 255 bytes and beyond, longer than a frame), with handlers which count their calls. Oracle: a map from (channel, service, endpoint) to handler and count. Non-trivial: an operation is refused or a call finds no handler.";
    const THREADS: usize = 48;
    const LONG: usize = 16;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 16_000 } else { 600_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let steps = t.steps(1..=t.pick(24, 60, 0), 400..=2000);
        let most = t.pick(4u8, 4, 255);
        let at = move || (prop_oneof![5 => Just(0u8), 1 => Just(1u8)], 0..most, 0..most.saturating_add(1));
        let many = t.pick(4, 4, 150);
        let n = || prop_oneof![3 => Just(1u8), 1 => 2u8..=4];
        let tail = || prop_oneof![3 => Just(vec![]), 1 => proptest::sample::select(vec![vec![0u8], vec![b' '], vec![0xff], vec![0xc3], vec![0xed, 0xa0, 0x80], b"e".to_vec()])];
        let kind = proptest::sample::select(vec![Kind::Plain, Kind::Async, Kind::Slow]);
        let op = prop_oneof![
            2 => (at(), n()).prop_map(|(at, n)| Op::Sub { at, n }),
            7 => (at(), kind, n()).prop_map(|(at, kind, n)| Op::Register { at, kind, n }),
            4 => (at(), n()).prop_map(|(at, n)| Op::Unregister { at, n }),
            6 => at().prop_map(|at| Op::Call { at }),
            2 => (at(), tail(), tail(), wire::gen::plan(2)).prop_map(|(at, service, endpoint, plan)| Op::Wire { at, service, endpoint, plan }),
            2 => (0u8..2).prop_map(|ch| Op::All { ch }),
            1 => (at(), any::<bool>()).prop_map(|(at, again)| Op::Stall { at, again }),
            1 => (at(), proptest::sample::select(vec![Gone::Sub, Gone::Register, Gone::Unregister]), 0u8..5).prop_map(|(at, what, steps)| Op::Gone { at, what, steps }),
            1 => (at(), 1u8..6, 1u8..8).prop_map(|(at, rounds, calls)| Op::Churn { at, rounds, calls }),
        ];
        let service = prop_oneof![24 => name(), 1 => Just(Name::Long(256, 'a'))];
        let endpoint = prop_oneof![24 => name(), 1 => Just(Name::Long(70_000, 'a')), 1 => Just(Name::Long(65_500, 'a'))];
        (knobs(), prop_oneof![1 => Just(0u8), 1 => 2u8..=4], vec(service, 1..=many), vec(endpoint, 1..=many + 1), vec(op, steps))
            .prop_map(|(knobs, workers, services, endpoints, ops)| C { knobs, workers, services, endpoints, ops })
            .boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl = vec![];
        let mut model: std::collections::HashSet<(u8, String, String)> = Default::default();
        let mut refused = false;
        let key = |at: &At| (at.0, c.services[at.1 as usize % c.services.len()].get(), c.endpoints[at.2 as usize % c.endpoints.len()].get());
        for o in &c.ops {
            match o {
                Op::Sub { n, .. } => if *n > 1 { cl.push("subchannel race".to_string()) },
                Op::Register { at, n, .. } => {
                    if !model.insert(key(at)) {
                        refused = true;
                        cl.push("taken name".into());
                    }
                    if *n > 1 {
                        refused = true;
                        cl.push("register race".into());
                    }
                }
                Op::Unregister { at, n } => {
                    if !model.remove(&key(at)) {
                        refused = true;
                        cl.push("missing name".into());
                    }
                    if *n > 1 {
                        refused = true;
                        cl.push("unregister race".into());
                    }
                }
                Op::Call { at } => {
                    let there = model.contains(&key(at));
                    refused |= !there;
                    cl.push(if there { "call of a handler".into() } else { "call of no handler".into() });
                }
                Op::Wire { .. } => cl.push("raw call".into()),
                Op::All { .. } => cl.push("calls to all names".into()),
                Op::Stall { .. } => cl.push("unregistered while handling".into()),
                Op::Churn { .. } => cl.push("churn".into()),
                Op::Gone { .. } => cl.push("abandoned operation".into()),
            }
        }
        cl.sort();
        cl.dedup();
        (refused, cl)
    }
    fn rt(&self, c: &C) -> Rt {
        if c.workers == 0 { Rt::Current } else { Rt::Multi(c.workers as usize) }
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            let addrs = [ctx.addr(), ctx.addr()];
            let chans = [Arc::new(channel(&c.knobs, addrs[0])?), Arc::new(channel(&c.knobs, addrs[1])?)];
            let cl = client(&c.knobs)?;
            for i in 0..2 {
                start(&chans[i], addrs[i]).await?;
            }
            let mut raws: HashMap<usize, (Raw, u32)> = HashMap::new();
            let mut subs: HashMap<(usize, String), Arc<SubChannel>> = HashMap::new();
            let mut model: BTreeMap<Key, Handler> = BTreeMap::new();
            let mut tag = 0usize;
            let svcs: Vec<String> = c.services.iter().map(|n| n.get()).collect();
            let eps: Vec<String> = c.endpoints.iter().map(|n| n.get()).collect();
            for (step, op) in c.ops.iter().enumerate() {
                let what = format!("step {step} {}", format!("{op:?}").split(", plan").next().unwrap());
                let at = |at: &At| -> Key { (at.0 as usize, svcs[at.1 as usize % svcs.len()].clone(), eps[at.2 as usize % eps.len()].clone()) };
                match op {
                    Op::Sub { at: a, n } => {
                        let k = at(a);
                        subs_of(&chans[k.0], &k.1, *n, &mut subs, k.0, &what).await?;
                    }
                    Op::Register { at: a, kind, n } => {
                        let k = at(a);
                        let s = subs_of(&chans[k.0], &k.1, 1, &mut subs, k.0, &what).await?;
                        let mut ts = vec![];
                        let mut alive = vec![];
                        for i in 0..*n as usize {
                            let life = Arc::new(());
                            alive.push(Arc::downgrade(&life));
                            let (s, ep, kind, t) = (s.clone(), k.2.clone(), *kind, tag + i);
                            ts.push(tokio::spawn(async move { add(&s, &ep, kind, t, life).await }));
                        }
                        let mut ok = vec![];
                        for (i, t) in ts.into_iter().enumerate() {
                            match t.await {
                                Ok(true) => ok.push(i),
                                Ok(false) => {}
                                Err(e) => return hard(format!("{what}: {e}")),
                            }
                        }
                        match (model.contains_key(&k), ok.len()) {
                            (true, 0) => {}
                            (true, m) => return hard(format!("{what}: {m} registrations of a taken name accepted")),
                            (false, 1) => {
                                model.insert(k.clone(), Handler { tag: tag + ok[0], count: 0, alive: alive[ok[0]].clone() });
                            }
                            (false, 0) => return hard(format!("{what}: registration of a free name refused")),
                            (false, m) => return hard(format!("{what}: {m} concurrent registrations of one name accepted")),
                        }
                        tag += *n as usize;
                    }
                    Op::Unregister { at: a, n } => {
                        let k = at(a);
                        let s = subs_of(&chans[k.0], &k.1, 1, &mut subs, k.0, &what).await?;
                        let ts: Vec<_> = (0..*n).map(|_| { let (s, ep) = (s.clone(), k.2.clone()); tokio::spawn(async move { s.unregister(&ep).await.is_ok() }) }).collect();
                        let mut ok = 0;
                        for t in ts {
                            match t.await {
                                Ok(b) => ok += b as usize,
                                Err(e) => return hard(format!("{what}: {e}")),
                            }
                        }
                        let h = model.remove(&k);
                        if ok != h.is_some() as usize {
                            return hard(format!("{what}: {ok} unregistrations accepted with {} handlers registered", h.is_some() as u8));
                        }
                        if let Some(h) = h {
                            if !eventually(4000, || h.alive.strong_count() == 0).await {
                                return soft(format!("{what}: the unregistered handler is kept"));
                            }
                        }
                    }
                    Op::Call { at: a } => {
                        let k = at(a);
                        let cs = sub(&cl, &k.1).await?;
                        expect(&cs, &k, addrs[k.0], model.get_mut(&k), &what).await?;
                    }
                    Op::Wire { at: a, service, endpoint, plan } => {
                        let k = at(a);
                        let svc = [k.1.as_bytes(), service].concat();
                        let ep = [k.2.as_bytes(), endpoint].concat();
                        if svc.len() > 255 {
                            continue;
                        }
                        if !raws.contains_key(&k.0) {
                            raws.insert(k.0, (Raw::client(addrs[k.0]).await?, 100));
                        }
                        let (raw, id) = raws.get_mut(&k.0).unwrap();
                        *id += 1;
                        let mut m = Msg::request("", "raw", [ep.clone(), b"h".to_vec(), b"b".to_vec()]);
                        m.service = svc.clone();
                        let got = wire_call(raw, *id, m, plan).await?;
                        let key = String::from_utf8(svc).ok().zip(String::from_utf8(ep).ok()).map(|(s, e)| (k.0, s, e));
                        match (key.and_then(|k| model.get_mut(&k)), got) {
                            (Some(h), peer::Answer::Reply(m)) if m.code == 0 => {
                                let want = format!("{} {}", h.tag, h.count);
                                h.count += 1;
                                if m.args.get(2).map(|b| b.as_slice()) != Some(want.as_bytes()) {
                                    return hard(format!("{what}: answered by {:?} instead of {want:?}", m.args.get(2).map(|b| String::from_utf8_lossy(b).into_owned())));
                                }
                            }
                            (Some(_), a) => return soft(format!("{what}: answered with {} though there is a handler", a.show())),
                            (None, a) if a.is_error() => {}
                            (None, a) => return hard(format!("{what}: answered with {} though there is no handler", a.show())),
                        }
                    }
                    Op::All { ch } => {
                        let mut ts = vec![];
                        for s in &svcs {
                            let cs = sub(&cl, s).await?;
                            for e in &eps {
                                let k: Key = (*ch as usize, s.clone(), e.clone());
                                if ts.iter().any(|(kk, _)| *kk == k) {
                                    continue;
                                }
                                let (cs, kk, addr) = (cs.clone(), k.clone(), addrs[*ch as usize]);
                                ts.push((k, tokio::spawn(async move { call(&cs, &Parts::new(kk.2, "h", "b"), addr).await })));
                            }
                        }
                        for (k, t) in ts {
                            match t.await {
                                Ok(r) => judge(&k, r, model.get_mut(&k), &what)?,
                                Err(e) => return hard(format!("{what}: {e}")),
                            }
                        }
                    }
                    Op::Stall { at: a, again } => {
                        let k = at(a);
                        if k.1.len() > 255 || model.contains_key(&k) {
                            continue;
                        }
                        let s = subs_of(&chans[k.0], &k.1, 1, &mut subs, k.0, &what).await?;
                        let (entered, go, life) = (Arc::new(Notify::new()), Arc::new(Notify::new()), Arc::new(()));
                        let alive = Arc::downgrade(&life);
                        let (e2, g2) = (entered.clone(), go.clone());
                        let t0 = tag;
                        tag += 2;
                        register_async(&s, &k.2, move |m: RawMessage| {
                            let (e2, g2, life) = (e2.clone(), g2.clone(), life.clone());
                            Box::pin(async move {
                                e2.notify_one();
                                g2.notified().await;
                                drop(life);
                                Ok(Parts::new(Parts::of(&m).ep, "", format!("{t0} stalled")).msg())
                            }) as Reply<_>
                        }).await?;
                        let cs = sub(&cl, &k.1).await?;
                        let stalled = tokio::spawn({ let (cs, ep, addr) = (cs.clone(), k.2.clone(), addrs[k.0]); async move { call(&cs, &Parts::new(ep, "h", "b"), addr).await } });
                        if tokio::time::timeout(8 * SECS, entered.notified()).await.is_err() {
                            return soft(format!("{what}: the call does not reach its handler"));
                        }
                        if let Err(e) = s.unregister(&k.2).await {
                            return hard(format!("{what}: unregistering a handler at work: {e}"));
                        }
                        if c.knobs.tasks > 1 {
                            expect(&cs, &k, addrs[k.0], None, &what).await?;
                        }
                        if *again {
                            let life = Arc::new(());
                            let alive = Arc::downgrade(&life);
                            if !add(&s, &k.2, Kind::Async, t0 + 1, life).await {
                                return hard(format!("{what}: registration of an unregistered name refused"));
                            }
                            model.insert(k.clone(), Handler { tag: t0 + 1, count: 0, alive });
                            if c.knobs.tasks > 1 {
                                expect(&cs, &k, addrs[k.0], model.get_mut(&k), &what).await?;
                            }
                        }
                        go.notify_one();
                        match stalled.await {
                            Ok(Res::Ok(p)) if p.body == format!("{t0} stalled").into_bytes() => {}
                            Ok(Res::Fail(e)) => return soft(format!("{what}: the call being handled failed: {e}")),
                            Ok(r) => return hard(format!("{what}: the call being handled got {r:?}")),
                            Err(e) => return hard(format!("{what}: {e}")),
                        }
                        if !eventually(4000, || alive.strong_count() == 0).await {
                            return soft(format!("{what}: the unregistered handler is kept"));
                        }
                    }
                    Op::Gone { at: a, what: Gone::Sub, steps } => {
                        let k = at(a);
                        let (ch, n) = (chans[k.0].clone(), *steps as usize);
                        if let Err(e) = tokio::spawn(async move { at_most(sub(&ch, &k.1), 1, Some(n)).await.map(|_| ()) }).await {
                            return hard(format!("{what}: {e}"));
                        }
                    }
                    Op::Gone { at: a, what: op, steps } => {
                        let k = at(a);
                        let s = subs_of(&chans[k.0], &k.1, 1, &mut subs, k.0, &what).await?;
                        let life = Arc::new(());
                        let first = Handler { tag, count: 0, alive: Arc::downgrade(&life) };
                        let task = tokio::spawn({
                            let (s, ep, n, tag, op) = (s.clone(), k.2.clone(), *steps as usize, tag, *op);
                            async move {
                                match op {
                                    Gone::Register => at_most(add(&s, &ep, Kind::Async, tag, life), 1, Some(n)).await,
                                    _ => at_most(async { s.unregister(&ep).await.is_ok() }, 1, Some(n)).await,
                                }
                            }
                        });
                        tag += 2;
                        let done = match task.await { Ok(d) => d, Err(e) => return hard(format!("{what}: {e}")) };
                        let had = model.remove(&k);
                        let left = match (op, had, done) {
                            (Gone::Register, Some(h), Some(false) | None) => Some(h),
                            (Gone::Register, None, Some(true)) => Some(first),
                            (Gone::Unregister, Some(_), Some(true)) | (Gone::Unregister, None, Some(false) | None) => None,
                            (_, _, Some(b)) => return hard(format!("{what}: {}", if b { "accepted" } else { "refused" })),
                            // Either it was done or it was not.
                            (_, had, None) => {
                                let old = had.unwrap_or(first);
                                let life = Arc::new(());
                                let new = Handler { tag: tag - 1, count: 0, alive: Arc::downgrade(&life) };
                                if add(&s, &k.2, Kind::Plain, tag - 1, life).await {
                                    if !eventually(4000, || old.alive.strong_count() == 0).await {
                                        return soft(format!("{what}: a handler not registered is kept"));
                                    }
                                    Some(new)
                                } else {
                                    Some(old)
                                }
                            }
                        };
                        if let Some(h) = left {
                            model.insert(k.clone(), h);
                        }
                        let cs = sub(&cl, &k.1).await?;
                        expect(&cs, &k, addrs[k.0], model.get_mut(&k), &what).await?;
                    }
                    Op::Churn { at: a, rounds, calls } => {
                        let k = at(a);
                        let s = subs_of(&chans[k.0], &k.1, 1, &mut subs, k.0, &what).await?;
                        let had = model.remove(&k);
                        let first = tag;
                        tag += *rounds as usize;
                        let churn = tokio::spawn({
                            let (s, ep, rounds, mut there) = (s.clone(), k.2.clone(), *rounds as usize, had.is_some());
                            async move {
                                let mut life = Arc::new(());
                                for i in 0..rounds {
                                    if s.unregister(&ep).await.is_ok() != there {
                                        return Err(format!("round {i}: unregistering refused, or accepted without a handler"));
                                    }
                                    tokio::task::yield_now().await;
                                    life = Arc::new(());
                                    if !add(&s, &ep, Kind::Async, first + i, life.clone()).await {
                                        return Err(format!("round {i}: registration refused"));
                                    }
                                    there = true;
                                    tokio::task::yield_now().await;
                                }
                                Ok(Arc::downgrade(&life))
                            }
                        });
                        let mut ts = vec![];
                        for i in 0..*calls as usize {
                            let e = if i % 2 == 0 { k.2.clone() } else { eps[(i / 2) % eps.len()].clone() };
                            let cs = sub(&cl, &k.1).await?;
                            let (addr, kk) = (addrs[k.0], (k.0, k.1.clone(), e.clone()));
                            ts.push((kk, tokio::spawn(async move { call(&cs, &Parts::new(e, "h", "b"), addr).await })));
                        }
                        let mut counts: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
                        let mut others: BTreeMap<Key, Vec<usize>> = BTreeMap::new();
                        for (kk, t) in ts {
                            let r = match t.await { Ok(r) => r, Err(e) => return hard(format!("{what}: {e}")) };
                            match r {
                                Res::Fail(_) if kk == k => {}
                                Res::Ok(p) => {
                                    let (tg, n) = parse(&p).map_or_else(|| hard(format!("{what}: got {p:?}")), Ok)?;
                                    if kk == k {
                                        if !(first..tag).contains(&tg) && had.as_ref().map(|h| h.tag) != Some(tg) {
                                            return hard(format!("{what}: a call was handled by {tg}, never registered under its name meanwhile"));
                                        }
                                        counts.entry(tg).or_default().push(n);
                                    } else {
                                        if model.get(&kk).map(|h| h.tag) != Some(tg) {
                                            return hard(format!("{what}: a call to {:?} was handled by {tg} instead of {:?}", kk.2, model.get(&kk).map(|h| h.tag)));
                                        }
                                        others.entry(kk).or_default().push(n);
                                    }
                                }
                                Res::Fail(e) => {
                                    if model.contains_key(&kk) && kk.1.len() < 256 {
                                        return soft(format!("{what}: call to {:?} failed: {e}", kk.2));
                                    }
                                }
                                r => return hard(format!("{what}: got {r:?}")),
                            }
                        }
                        let alive = match churn.await {
                            Ok(Ok(a)) => a,
                            Ok(Err(e)) => return hard(format!("{what}: {e}")),
                            Err(e) => return hard(format!("{what}: {e}")),
                        };
                        let exact = |n: &mut Vec<usize>, from: usize| { n.sort(); n.iter().enumerate().all(|(i, n)| *n == from + i) };
                        for (kk, mut n) in others {
                            let h = model.get_mut(&kk).unwrap();
                            if !exact(&mut n, h.count) {
                                return hard(format!("{what}: handler {} counted {n:?} from {}", h.tag, h.count));
                            }
                            h.count += n.len();
                        }
                        for (tg, n) in counts.iter_mut() {
                            let from = had.as_ref().filter(|h| h.tag == *tg).map_or(0, |h| h.count);
                            if !exact(n, from) {
                                return hard(format!("{what}: handler {tg} counted {n:?} from {from}"));
                            }
                        }
                        let count = counts.get(&(tag - 1)).map_or(0, |n| n.len());
                        model.insert(k, Handler { tag: tag - 1, count, alive });
                    }
                }
            }
            // All names once more, one by one.
            for ch in 0..2 {
                for s in &svcs {
                    let cs = sub(&cl, s).await?;
                    for e in &eps {
                        let k: Key = (ch, s.clone(), e.clone());
                        if ch == 1 && !model.contains_key(&k) {
                            continue;
                        }
                        expect(&cs, &k, addrs[ch], model.get_mut(&k), "in the end").await?;
                    }
                }
            }
            for (k, h) in &model {
                if h.alive.strong_count() == 0 {
                    return hard(format!("handler {} of {:?} is gone", h.tag, (&k.1, &k.2)));
                }
            }
            Ok(())
        })
    }
}
fn parse(p: &Parts) -> Option<(usize, usize)> {
    let s = std::str::from_utf8(&p.body).ok()?;
    let (a, b) = s.split_once(' ')?;
    Some((a.parse().ok()?, b.parse().ok()?))
}
fn judge(k: &Key, r: Res<Parts>, h: Option<&mut Handler>, what: &str) -> R {
    // A service name longer than this cannot be called.
    let h = h.filter(|_| k.1.len() < 256);
    let who = format!("{what}: call to {:?} {:?} of channel {}", cut(&k.1), cut(&k.2), k.0);
    match (h, r) {
        (Some(h), Res::Ok(p)) => {
            let want = (h.tag, h.count);
            h.count += 1;
            if parse(&p) != Some(want) {
                return hard(format!("{who}: handled by {:?} instead of {want:?} (handler, its calls)", parse(&p)));
            }
            Ok(())
        }
        (Some(h), Res::Fail(e)) => soft(format!("{who}: failed though handler {} is registered: {e}", h.tag)),
        (Some(_), r) => hard(format!("{who}: got {r:?}")),
        (None, Res::Fail(_)) => Ok(()),
        (None, r) => hard(format!("{who}: got {r:?} though no handler is registered")),
    }
}
fn cut(s: &str) -> String {
    s.chars().take(12).collect()
}
async fn expect(cs: &SubChannel, k: &Key, addr: SocketAddr, h: Option<&mut Handler>, what: &str) -> R {
    let r = call(cs, &Parts::new(k.2.clone(), "h", "b"), addr).await;
    judge(k, r, h, what)
}
async fn subs_of(ch: &Arc<TChannel>, svc: &str, n: u8, subs: &mut HashMap<(usize, String), Arc<SubChannel>>, i: usize, what: &str) -> R<Arc<SubChannel>> {
    let ts: Vec<_> = (0..n).map(|_| { let (ch, svc) = (ch.clone(), svc.to_string()); tokio::spawn(async move { sub(&ch, &svc).await }) }).collect();
    for t in ts {
        let s = match t.await { Ok(s) => s?, Err(e) => return hard(format!("{what}: {e}")) };
        let had = subs.entry((i, svc.to_string())).or_insert_with(|| s.clone());
        if !Arc::ptr_eq(had, &s) {
            return hard(format!("{what}: a second subchannel for the same service name"));
        }
    }
    Ok(subs[&(i, svc.to_string())].clone())
}
/// Registers a handler which answers with its tag and the number of calls before.
async fn add(s: &SubChannel, ep: &str, kind: Kind, tag: usize, life: Arc<()>) -> bool {
    let count = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let answer = move |m: RawMessage| {
        let _ = &life;
        let n = count.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = Parts::of(&m);
        Ok(Parts::new(p.ep, p.header, format!("{tag} {n}")).msg())
    };
    match kind {
        Kind::Plain => s.register(ep, Plain(Arc::new(answer))).await.is_ok(),
        Kind::Async => s.register_async(ep, fun(move |m| { let r = answer(m); Box::pin(async move { r }) as Reply<_> })).await.is_ok(),
        Kind::Slow => {
            let answer = Arc::new(answer);
            s.register_async(ep, fun(move |m| {
                let answer = answer.clone();
                Box::pin(async move {
                    tokio::task::yield_now().await;
                    let r = answer(m);
                    tokio::task::yield_now().await;
                    r
                }) as Reply<_>
            })).await.is_ok()
        }
    }
}
