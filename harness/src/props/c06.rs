//! Responses are matched to calls whatever their order.
use super::prelude::*;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    knobs: Knobs,
    workers: u8,
    /// Calls started together; the next wave starts once the server has the requests of this one.
    waves: Vec<Vec<Call>>,
    picks: Vec<u8>,
    /// Frames for ids no call waits for: position (65536ths of a wave's frames), what.
    stray: Vec<(u16, Stray)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    req: [Arg; 2],
    rep: [Arg; 3],
    plan: Plan,
    kind: Kind,
    /// Answered this many waves later.
    late: u8,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Ok,
    Error,
    ErrorFrame,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Stray {
    /// A whole response for an id never used.
    Reply(u32),
    Continuation(u32),
    Error(u32),
    Pong(u32),
    /// A response for the id of a call already answered.
    Again,
}
pub struct P;

impl Prop for P {
    type C = C;
    const ID: &'static str = "C06";
    const RULE: &'static str = "1-3 waves of 1-10 concurrent calls on one connection of a client to a scripted server, which answers them in any order (some only during later waves), each response cut into frames at random and the frames of different responses interleaved at random, with frames for unknown or finished ids in between. Non-trivial: two or more calls are answered together.";
    const LONG: usize = 16;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 60_000 } else { 500_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let big = t.pick(90_000, 300_000, 90_000);
        let req = prop_oneof![8 => [blob::small_arg(), blob::small_arg()], 1 => [blob::small_arg(), blob::arg(big)]];
        let rep = prop_oneof![6 => [blob::small_arg(), blob::small_arg(), blob::small_arg()], 1 => [blob::small_arg(), blob::small_arg(), blob::arg(big)]];
        let kind = prop_oneof![6 => Just(Kind::Ok), 1 => Just(Kind::Error), 1 => Just(Kind::ErrorFrame)];
        let call = (req, rep, wire::gen::plan(4), kind, prop_oneof![3 => Just(0u8), 1 => 1u8..3]).prop_map(|(req, rep, plan, kind, late)| Call { req, rep, plan, kind, late });
        let id = || prop_oneof![Just(0u32), Just(1), 0u32..60, Just(u32::MAX), any::<u32>()];
        let stray = prop_oneof![id().prop_map(Stray::Reply), id().prop_map(Stray::Continuation), id().prop_map(Stray::Error), id().prop_map(Stray::Pong), Just(Stray::Again)];
        (knobs(), prop_oneof![3 => Just(0u8), 1 => 2u8..=4], t.groups(call.boxed(), 1..=10, 1..=3, 300..=1000, 80..=400), vec(any::<u8>(), 0..12), vec((any::<u16>(), stray), 0..4))
            .prop_map(|(mut knobs, workers, waves, picks, stray)| {
                knobs.conns = 1;
                C { knobs, workers, waves, picks, stray }
            })
            .boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl = vec![];
        let all = || c.waves.iter().flatten();
        if all().any(|x| x.late > 0) && c.waves.len() > 1 { cl.push("answered during a later wave".into()); }
        if all().filter(|x| !x.plan.cuts.is_empty()).count() > 1 { cl.push("several multi-frame responses".into()); }
        if c.picks.iter().any(|p| *p != 0) && all().count() > 1 { cl.push("interleaved".into()); }
        for s in &c.stray {
            cl.push(match s.1 { Stray::Again => "frame for an answered id".into(), _ => "frame for an unknown id".into() });
        }
        for x in all() {
            match x.kind { Kind::Ok => {}, Kind::Error => cl.push("error response".into()), Kind::ErrorFrame => cl.push("error frame".into()) }
        }
        cl.sort();
        cl.dedup();
        (c.waves.iter().any(|w| w.len() > 1), cl)
    }
    fn rt(&self, c: &C) -> Rt {
        if c.workers == 0 { Rt::Current } else { Rt::Multi(c.workers as usize) }
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            let addr = ctx.addr();
            let l = peer::listen(addr)?;
            let cl = client(&c.knobs)?;
            let cs = sub(&cl, "svc").await?;
            let mut r: Option<Raw> = None;
            let mut tasks = vec![];
            let mut used: HashSet<u32> = HashSet::new();
            let mut answered: Vec<u32> = vec![];
            // calls to answer: (due wave, call, id)
            let mut due: Vec<(usize, usize, u32)> = vec![];
            let mut calls: Vec<(Call, Parts, Parts)> = vec![];
            for (w, wave) in c.waves.iter().enumerate() {
                let base = calls.len();
                for (k, x) in wave.iter().enumerate() {
                    let i = base + k;
                    let ep = format!("e{i}");
                    let mut cur = Cursor::new(blob::request_room(3, 3) - 2 - ep.len() as i64);
                    let req = Parts { header: x.req[0].text(&mut cur), body: x.req[1].bytes(&mut cur), ep };
                    let a: Vec<Arg> = x.rep.to_vec();
                    let mut cur = Cursor::new(blob::response_room(3, 3));
                    let rep = Parts { ep: format!("r{i}{}", a[0].text(&mut cur)), header: a[1].text(&mut cur), body: a[2].bytes(&mut cur) };
                    calls.push((x.clone(), req.clone(), rep));
                    let cs = cs.clone();
                    tasks.push(tokio::spawn(async move { call(&cs, &req, addr).await }));
                }
                if r.is_none() {
                    let mut n = peer::accept(&l).await?;
                    n.welcome().await?;
                    r = Some(n);
                }
                let r = r.as_mut().unwrap();
                // The requests of this wave.
                let mut asm: HashMap<u32, Asm> = HashMap::new();
                let mut got = BTreeMap::new();
                while got.len() < wave.len() {
                    let f = match r.next(8 * SECS).await {
                        Ev::Frame(f) => f,
                        o => return soft(format!("wave {w}: {} with {} of {} requests read", o.show(), got.len(), wave.len())),
                    };
                    if f.ty == wire::CALL_REQ && !used.insert(f.id) {
                        return hard(format!("wave {w}: id {} used for a second request", f.id));
                    }
                    let a = asm.entry(f.id).or_default();
                    if let Err(e) = a.feed(&f, true) {
                        return hard(format!("wave {w}: request {}: {e}", f.id));
                    }
                    if a.done {
                        let m = asm.remove(&f.id).unwrap().msg.unwrap();
                        let i = Parts::from_args(&m.args).and_then(|p| (base..calls.len()).find(|i| calls[*i].1 == p));
                        let Some(i) = i else { return hard(format!("wave {w}: request {} is none that was made", f.id)) };
                        if got.insert(i, f.id).is_some() {
                            return hard(format!("request of call {i} was sent twice"));
                        }
                        due.push((w + calls[i].0.late as usize, i, f.id));
                    }
                }
                // Answer what is due, everything in the end.
                let last = w + 1 == c.waves.len();
                let (now, later): (Vec<_>, Vec<_>) = due.drain(..).partition(|d| last || d.0 <= w);
                due = later;
                let seqs: Vec<Vec<Frame>> = now
                    .iter()
                    .map(|(_, i, id)| {
                        let (x, _, rep) = &calls[*i];
                        match x.kind {
                            Kind::ErrorFrame => vec![wire::error(*id, 0x05, b"no")],
                            k => Msg::reply((k == Kind::Error) as u8, "raw", rep.args()).split(*id, &x.plan),
                        }
                    })
                    .collect();
                let mut left: Vec<usize> = seqs.iter().map(|s| s.len()).collect();
                let mut frames = wire::interleave(seqs, &c.picks);
                // Stray frames, from the back so that positions stay.
                let n = frames.len();
                let mut stray: Vec<(usize, Stray)> = c.stray.iter().map(|(p, s)| (n * *p as usize / 65535, *s)).collect();
                stray.sort_by_key(|s| s.0);
                let mut out: Vec<Frame> = vec![];
                for (k, (j, f)) in frames.drain(..).map(Some).chain([None]).enumerate().filter_map(|(k, x)| match x { Some(x) => Some((k, (Some(x.0), Some(x.1)))), None => Some((k, (None, None))) }) {
                    for (_, s) in stray.iter().filter(|s| s.0 == k) {
                        // Ids the client may be about to use are not unknown.
                        let fresh = |id: u32| if used.contains(&id) || (!last && id < 1000) { u32::MAX - (id % 1000) } else { id };
                        match s {
                            Stray::Reply(id) => out.extend(Msg::reply(0, "raw", Default::default()).whole(fresh(*id))),
                            Stray::Continuation(id) => out.push(Frame::new(wire::RES_CONT, fresh(*id), vec![0, 0, 0, 0])),
                            Stray::Error(id) => out.push(wire::error(fresh(*id), 5, b"stray")),
                            Stray::Pong(id) => out.push(wire::ping(wire::PING_RES, fresh(*id))),
                            Stray::Again => {
                                if let Some(id) = answered.last() {
                                    out.extend(Msg::reply(0, "raw", [b"again".to_vec(), vec![], vec![]]).whole(*id));
                                }
                            }
                        }
                    }
                    if let (Some(j), Some(f)) = (j, f) {
                        left[j] -= 1;
                        if left[j] == 0 {
                            answered.push(f.id);
                        }
                        out.push(f);
                    }
                }
                r.send_bytes(&wire::enc_all(&out)).await?;
            }
            for (i, t) in tasks.into_iter().enumerate() {
                let got = match t.await { Ok(g) => g, Err(e) => return hard(format!("call {i}: {e}")) };
                let (x, _, rep) = &calls[i];
                match (x.kind, got) {
                    (Kind::Ok, g) => expect_ok(g, rep, &format!("call {i}"))?,
                    (Kind::Error, Res::Message(p)) if p == *rep => {}
                    (Kind::ErrorFrame, Res::Fail(_)) => {}
                    (Kind::Error, Res::Fail(e)) => return soft(format!("call {i}: error response gave {e}")),
                    (k, g) => return hard(format!("call {i}: {k:?} {rep:?} arrived as {g:?}")),
                }
            }
            drop(r);
            Ok(())
        })
    }
}
