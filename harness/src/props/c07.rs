//! Interleaved requests are all served; slow ones do not block others.
use super::prelude::*;
use peer::{Answer, Inbox};
use tchannel_rs::messages::RawMessage;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    knobs: Knobs,
    workers: u8,
    reqs: Vec<Rq>,
    picks: Vec<u8>,
    seg: Vec<u16>,
    id0: u32,
    step: u32,
    /// While handlers are stalled a subchannel and a handler are added.
    #[serde(default)]
    grow: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rq {
    ep: u8,
    args: [Arg; 2],
    rep: [Arg; 2],
    plan: Plan,
    kind: Kind,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Normal,
    /// Its handler waits until everything else is answered.
    Stalled,
    /// Its last frames come after everything else is answered (true) or never.
    Late(bool),
}
pub struct P;
const EPS: usize = 4;

impl Prop for P {
    type C = C;
    const ID: &'static str = "C07";
    const RULE: &'static str = "2-24 requests on one raw connection to a server, each cut into frames at random, all frames interleaved at random; some handlers stall (fewer than the task limit) and some requests stay incomplete until, or beyond, the moment when every other request is answered. Non-trivial: there is a stalled or incomplete request, or two multi-frame requests are interleaved.";
    const LONG: usize = 16;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 50_000 } else { 450_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let big = t.pick(90_000, 300_000, 90_000);
        let a2 = move || prop_oneof![8 => [blob::small_arg(), blob::small_arg()], 1 => [blob::small_arg(), blob::arg(big)]];
        let kind = prop_oneof![6 => Just(Kind::Normal), 2 => Just(Kind::Stalled), 1 => Just(Kind::Late(true)), 1 => Just(Kind::Late(false))];
        let rq = (any::<u8>(), a2(), a2(), wire::gen::plan(5), kind).prop_map(|(ep, args, rep, plan, kind)| Rq { ep, args, rep, plan, kind }).boxed();
        let id0 = prop_oneof![Just(0u32), Just(1), Just(u32::MAX), any::<u32>()];
        let step = prop_oneof![3 => Just(1u32), 1 => Just(1 << 16), 1 => Just(0x1000_0001)];
        (knobs(), prop_oneof![3 => Just(0u8), 1 => 2u8..=4], prop_oneof![2 => vec(rq.clone(), t.steps(2..=9, 100..=1000)), 1 => vec(rq, t.steps(10..=24, 1200..=2500))], vec(any::<u8>(), 0..12), vec(any::<u16>(), 0..4), id0, step, proptest::bool::weighted(if t == Tier::Long { 0.6 } else { 0.3 }))
            .prop_map(move |(knobs, workers, mut reqs, picks, seg, id0, step, grow)| {
                // Nearly all of many requests incomplete at a time.
                if t == Tier::Long && grow {
                    for (i, r) in reqs.iter_mut().enumerate().filter(|(i, _)| i % 8 != 0) {
                        r.kind = Kind::Late(i % 16 != 1);
                        if r.plan.cuts.is_empty() {
                            r.plan.cuts.push(wire::Cut::At(9000 * (1 + i % 7) as u16));
                        }
                    }
                }
                C { knobs, workers, reqs, picks, seg, id0, step, grow }
            })
            .boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let k = kinds(c);
        let mut cl = vec![];
        let n = |f: &dyn Fn(Kind) -> bool| k.iter().filter(|k| f(**k)).count();
        let (st, late) = (n(&|k| k == Kind::Stalled), n(&|k| matches!(k, Kind::Late(_))));
        if st > 0 { cl.push("stalled handlers".into()); }
        if st > 0 && c.grow { cl.push("a subchannel and a handler added while handlers are stalled".into()); }
        if st + 1 == c.knobs.tasks as usize && st > 0 { cl.push("one free task".into()); }
        if late > 1024 { cl.push("over 1024 incomplete requests at a time".into()); }
        if late > 0 { cl.push("incomplete requests".into()); }
        if late >= c.knobs.tasks as usize { cl.push("at least as many incomplete requests as tasks".into()); }
        if n(&|k| k == Kind::Late(false)) > 0 { cl.push("never completed".into()); }
        let multi = c.reqs.iter().filter(|r| !r.plan.cuts.is_empty()).count();
        let inter = multi > 1 && c.picks.iter().any(|p| *p != 0);
        if inter { cl.push("interleaved multi-frame requests".into()); }
        if multi > c.knobs.tasks as usize { cl.push("more multi-frame requests than tasks".into()); }
        (st + late > 0 || inter, cl)
    }
    fn rt(&self, c: &C) -> Rt {
        if c.workers == 0 { Rt::Current } else { Rt::Multi(c.workers as usize) }
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the task limit is understood per connection: fewer requests than the limit are stalled or wait for a stalled handler".into()]
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            let addr = ctx.addr();
            let kinds = kinds(&c);
            let server = Arc::new(channel(&c.knobs, addr)?);
            let ss = sub(&server, "svc").await?;
            let log: Log<Parts> = Log::default();
            let (open, gate) = tokio::sync::watch::channel(false);
            // (request, reply) by index
            let all: Arc<Vec<(Parts, Parts)>> = Arc::new(
                c.reqs
                    .iter()
                    .enumerate()
                    .map(|(i, r)| {
                        let stalled = kinds[i] == Kind::Stalled;
                        let ep = format!("{}{}", if stalled { "s" } else { "e" }, r.ep as usize % EPS);
                        let mut cur = Cursor::new(blob::request_room(3, 3));
                        let req = Parts { ep, header: format!("{i}:{}", r.args[0].text(&mut cur)), body: r.args[1].bytes(&mut cur) };
                        let mut cur = Cursor::new(blob::response_room(3, 3));
                        (req, Parts { ep: format!("r{i}"), header: r.rep[0].text(&mut cur), body: r.rep[1].bytes(&mut cur) })
                    })
                    .collect(),
            );
            for e in 0..EPS {
                for stalled in [false, true] {
                    let (log, all, gate) = (log.clone(), all.clone(), gate.clone());
                    register_async(&ss, &format!("{}{e}", if stalled { "s" } else { "e" }), move |m: RawMessage| {
                        let (log, all, mut gate) = (log.clone(), all.clone(), gate.clone());
                        Box::pin(async move {
                            log.push(Parts::of(&m));
                            if stalled {
                                while !*gate.borrow() {
                                    if gate.changed().await.is_err() {
                                        break;
                                    }
                                }
                            }
                            let i: Option<usize> = m.header().split(':').next().and_then(|s| s.parse().ok());
                            Ok(match i.and_then(|i| all.get(i)) { Some(x) => x.1.msg(), None => Parts::new("?", "", "").msg() })
                        }) as Reply<_>
                    })
                    .await?;
                }
            }
            start(&server, addr).await?;
            let mut r = Raw::client(addr).await?;
            let id = |i: usize| c.id0.wrapping_add(c.step.wrapping_mul(i as u32));
            let mut seqs: Vec<Vec<Frame>> = c.reqs.iter().enumerate().map(|(i, x)| Msg::request("svc", "raw", all[i].0.args()).split(id(i), &x.plan)).collect();
            let mut rest = vec![];
            for (i, s) in seqs.iter_mut().enumerate() {
                rest.push(if let Kind::Late(_) = kinds[i] { let n = s.len(); s.split_off(1 + (c.reqs[i].ep as usize) % (n - 1).max(1)) } else { vec![] });
            }
            let frames: Vec<Frame> = wire::interleave(seqs, &c.picks).into_iter().map(|f| f.1).collect();
            r.send_segments(&wire::enc_all(&frames), &c.seg, false).await?;
            let mut inbox = Inbox::default();
            let mut extra = 0;
            let wanted = |k: Kind, stage: u8| match k { Kind::Normal => true, Kind::Stalled => stage >= 1, Kind::Late(done) => stage >= 2 && done };
            for stage in 0..3u8 {
                if stage == 1 {
                    let _ = open.send(true);
                }
                if stage == 2 {
                    let s = rest.iter().enumerate().map(|(i, f)| if kinds[i] == Kind::Late(true) { f.clone() } else { vec![] }).collect();
                    let frames: Vec<Frame> = wire::interleave(s, &c.picks).into_iter().map(|f| f.1).collect();
                    r.send_segments(&wire::enc_all(&frames), &c.seg, false).await?;
                }
                let want: Vec<usize> = (0..all.len()).filter(|i| wanted(kinds[*i], stage)).collect();
                let what = ["with handlers stalled and requests incomplete", "with requests incomplete", "in the end"][stage as usize];
                r.collect(&mut inbox, what, |b| want.iter().all(|i| b.has(id(*i)))).await?;
                if stage == 0 && c.grow {
                    let (server, ss) = (server.clone(), ss.clone());
                    let mut growth = Some(tokio::spawn(async move {
                        let fresh = sub(&server, "fresh").await?;
                        register(&fresh, "new", true, |_: RawMessage| Ok(Parts::new("n", "", "").msg())).await?;
                        register(&ss, "new", false, |_: RawMessage| Ok(Parts::new("n", "", "").msg())).await
                    }));
                    for _ in 0..4 {
                        tokio::task::yield_now().await;
                    }
                    for (k, (service, ep)) in [("svc", "e0"), ("svc", "new"), ("fresh", "new")].into_iter().enumerate() {
                        let id = id(all.len() + 1 + k);
                        for f in Msg::request(service, "raw", [ep.as_bytes().to_vec(), b"last".to_vec(), vec![]]).whole(id) {
                            r.send(&f).await?;
                        }
                        r.collect(&mut inbox, &format!("a request to {service} {ep}, added to while handlers are stalled"), |b| b.has(id)).await?;
                        match (k, inbox.of(id).first()) {
                            (0, _) => match growth.take() {
                                Some(g) => g.await.map_err(|e| Bad::Hard(e.to_string()))??,
                                None => {}
                            },
                            (_, Some(Answer::Reply(m))) if m.args.first().map(|a| &a[..]) == Some(b"n") => {}
                            (_, a) => return hard(format!("a request to {service} {ep}, just registered, was answered with {:?}", a.map(|a| a.show()))),
                        }
                        extra += 1;
                    }
                }
            }
            // A last request: whatever was answered too often has arrived by its answer.
            let last = id(all.len());
            for f in Msg::request("svc", "raw", [b"e0".to_vec(), b"last".to_vec(), vec![]]).whole(last) {
                r.send(&f).await?;
            }
            r.collect(&mut inbox, "after a last request", |b| b.has(last)).await?;
            for i in 0..all.len() {
                let a = inbox.of(id(i));
                let n = wanted(kinds[i], 2) as usize;
                if a.len() != n {
                    return hard(format!("request {i} ({:?}) was answered {} times", kinds[i], a.len()));
                }
                match a.first() {
                    None => {}
                    Some(Answer::Reply(m)) if m.code == 0 && Parts::from_args(&m.args).as_ref() == Some(&all[i].1) => {}
                    Some(a) => return hard(format!("request {i} was answered with {} instead of {:?}", a.show(), all[i].1)),
                }
            }
            if inbox.answers.len() != 1 + extra + (0..all.len()).filter(|i| wanted(kinds[*i], 2)).count() {
                return hard("answers under ids no request had");
            }
            let mut got: Vec<Parts> = log.get();
            got.retain(|p| p.header != "last");
            got.sort();
            let mut want: Vec<Parts> = (0..all.len()).filter(|i| wanted(kinds[*i], 2)).map(|i| all[i].0.clone()).collect();
            want.sort();
            if got != want {
                return hard(format!("handled {got:?}, complete requests were {want:?}"));
            }
            Ok(())
        })
    }
}

/// Kinds as used: fewer stalled requests than tasks, and only multi-frame requests can be incomplete.
fn kinds(c: &C) -> Vec<Kind> {
    let mut stalled = 0;
    c.reqs
        .iter()
        .map(|r| match r.kind {
            Kind::Stalled => {
                stalled += 1;
                if stalled < c.knobs.tasks as usize { Kind::Stalled } else { Kind::Normal }
            }
            Kind::Late(_) if r.plan.cuts.is_empty() => Kind::Normal,
            k => k,
        })
        .collect()
}
