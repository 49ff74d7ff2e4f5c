//! Abandoned calls disturb no other call.
use super::prelude::*;
use peer::{Did, Hub};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::task::Poll;
use tchannel_rs::messages::RawMessage;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C {
    /// To a scripted server.
    Scripted { knobs: Knobs, workers: u8, waves: Vec<Wave> },
    /// To the library's server.
    Served { knobs: Knobs, workers: u8, waves: Vec<Vec<Call>> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wave {
    calls: Vec<Call>,
    picks: Vec<u8>,
    /// Responses sent in one go, with pauses where calls are dropped otherwise.
    blind: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    req: [Arg; 2],
    rep: [Arg; 2],
    plan: Plan,
    fate: Fate,
    answer: Answer,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fate {
    Keep,
    /// Dropped when it was polled so many times.
    Polls(u8),
    /// Dropped after so many of its awaits.
    Steps(u8),
    /// Dropped by another task after that many yields.
    Yields(u8),
    /// Dropped when the server has so many frames of its request (all, at most).
    Requested(u8),
    /// Dropped when so many frames of its response have been sent (not all).
    Responded(u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Answer {
    Whole,
    /// The response to an abandoned call stops short.
    Part(u8),
    ErrorFrame,
    Never,
    /// Together with the next wave's.
    Late,
}
pub struct P;

impl Prop for P {
    type C = C;
    const ID: &'static str = "C19";
    const RULE: &'static str = "1-4 waves of 1-8 concurrent calls of one client, many of which are dropped: after any number of polls or awaits, by another task at any time, when the server has some or all frames of their request, or when some frames of their response are out. To a scripted server which answers abandoned calls as a whole, in part, with an error, late, or never, the frames of all responses interleaved at random; or to the library's own server. Single- and multi-threaded. Oracle: every kept call of the same and later waves gets exactly its own reply; a request is complete and right if it is complete at all. Non-trivial: a call is abandoned while kept ones are pending or follow.";
    const LONG: usize = 16;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 14_000 } else { 800_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let big = t.pick(150_000, 400_000, 150_000);
        let a = || prop_oneof![5 => [blob::small_arg(), blob::small_arg()], 1 => [blob::small_arg(), blob::arg(big)]];
        let fate = prop_oneof![
            4 => Just(Fate::Keep),
            2 => (1u8..24).prop_map(Fate::Polls),
            2 => (1u8..60).prop_map(Fate::Steps),
            1 => (0u8..40).prop_map(Fate::Yields),
            2 => (0u8..5).prop_map(Fate::Requested),
            2 => (0u8..5).prop_map(Fate::Responded),
        ];
        let answer = prop_oneof![4 => Just(Answer::Whole), 2 => (0u8..4).prop_map(Answer::Part), 1 => Just(Answer::ErrorFrame), 1 => Just(Answer::Never), 1 => Just(Answer::Late)];
        let call = (a(), a(), wire::gen::plan(5), fate, answer).prop_map(|(req, rep, plan, fate, answer)| Call { req, rep, plan, fate, answer }).boxed();
        let workers = || prop_oneof![2 => Just(0u8), 1 => 2u8..=4];
        let wave = |n| (vec(call.clone(), n), vec(any::<u8>(), 0..12), any::<bool>()).prop_map(|(calls, picks, blind)| Wave { calls, picks, blind });
        let scripted = (knobs(), workers(), if t == Tier::Long { prop_oneof![vec(wave(1..=8), 200..=800), vec(wave(60..=300), 1..=4)].boxed() } else { vec(wave(1..=8), 1..=4).boxed() }).prop_map(|(knobs, workers, waves)| C::Scripted { knobs, workers, waves });
        let served = (knobs(), workers(), t.groups(call.clone(), 1..=8, 1..=4, 200..=800, 60..=300)).prop_map(|(knobs, workers, waves)| C::Served { knobs, workers, waves });
        prop_oneof![3 => scripted, 1 => served].boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let calls: Vec<&Call> = match c {
            C::Scripted { waves, .. } => waves.iter().flat_map(|w| &w.calls).collect(),
            C::Served { waves, .. } => waves.iter().flatten().collect(),
        };
        let mut cl: Vec<String> = calls.iter().map(|c| format!("{:?}", c.fate).split('(').next().unwrap().to_string()).collect();
        cl.push(match c { C::Scripted { .. } => "scripted".into(), _ => "served".into() });
        for c in calls.iter().filter(|c| c.fate != Fate::Keep) {
            cl.push(format!("abandoned, answered: {}", format!("{:?}", c.answer).split('(').next().unwrap()));
        }
        cl.sort();
        cl.dedup();
        let n = calls.iter().filter(|c| c.fate != Fate::Keep).count();
        (n > 0 && calls.len() > n, cl)
    }
    fn rt(&self, c: &C) -> Rt {
        match c {
            C::Scripted { workers, .. } | C::Served { workers, .. } if *workers > 0 => Rt::Multi(*workers as usize),
            _ => Rt::Current,
        }
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            match c {
                C::Scripted { knobs, waves, .. } => scripted(knobs, waves, ctx).await,
                C::Served { knobs, waves, .. } => served(knobs, waves, ctx).await,
            }
        })
    }
}

fn request(i: usize, x: &Call) -> Parts {
    let mut cur = Cursor::new(blob::request_room(3, 3) - 8);
    Parts { ep: format!("c{i}"), header: x.req[0].text(&mut cur), body: x.req[1].bytes(&mut cur) }
}
fn reply(i: usize, x: &Call) -> Parts {
    let mut cur = Cursor::new(blob::response_room(3, 3) - 8);
    Parts { ep: format!("r{i}"), header: x.rep[0].text(&mut cur), body: x.rep[1].bytes(&mut cur) }
}

async fn scripted(knobs: Knobs, waves: Vec<Wave>, ctx: Ctx) -> R {
    let addr = ctx.addr();
    let mut hub = Hub::new(peer::listen(addr)?, true);
    let cl = client(&knobs)?;
    let cs = sub(&cl, "svc").await?;
    let (tx, mut results) = tokio::sync::mpsc::unbounded_channel::<(usize, Option<Res<Parts>>)>();
    let mut calls: Vec<Call> = vec![];
    // Frames of responses kept for the next wave.
    let mut late: Vec<(usize, usize, Vec<Frame>)> = vec![];
    // Call and number of frames read, by connection and id.
    let mut got: BTreeMap<(usize, u32), (usize, usize)> = BTreeMap::new();
    for (w, wave) in waves.iter().enumerate() {
        let base = calls.len();
        calls.extend(wave.calls.iter().cloned());
        let all = base..calls.len();
        let mut handles: BTreeMap<usize, tokio::task::JoinHandle<()>> = BTreeMap::new();
        for i in all.clone() {
            let (cs, tx, p, fate) = (cs.clone(), tx.clone(), request(i, &calls[i]), calls[i].fate);
            let h = tokio::spawn(async move {
                let f = call(&cs, &p, addr);
                let r = match fate {
                    Fate::Polls(n) => at_most(f, n as usize, None).await,
                    Fate::Steps(n) => at_most(f, n as usize, Some(1)).await,
                    _ => Some(f.await),
                };
                let _ = tx.send((i, r));
            });
            if let Fate::Yields(n) = fate {
                for _ in 0..n {
                    tokio::task::yield_now().await;
                }
                h.abort();
            } else {
                handles.insert(i, h);
            }
        }
        let kept: BTreeSet<usize> = all.clone().filter(|i| calls[*i].fate == Fate::Keep).collect();
        // Those which the server decides to be dropped.
        let mut live: BTreeSet<usize> = all.clone().filter(|i| matches!(calls[*i].fate, Fate::Requested(_) | Fate::Responded(_))).collect();
        // Requests: call to its connection and id.
        let mut complete: BTreeMap<usize, (usize, u32)> = BTreeMap::new();
        let mut dropped: BTreeSet<usize> = BTreeSet::new();
        let mut done: BTreeMap<usize, Res<Parts>> = BTreeMap::new();
        // Wait for the requests of the kept calls, and of those to be dropped while being answered.
        loop {
            for i in live.clone() {
                if calls[i].fate == Fate::Requested(0) {
                    handles[&i].abort();
                    dropped.insert(i);
                    live.remove(&i);
                }
            }
            if kept.iter().chain(&live).all(|i| complete.contains_key(i) || dropped.contains(i)) {
                break;
            }
            tokio::select! {
                biased;
                r = results.recv() => {
                    let (i, r) = r.unwrap();
                    if i < base {
                        if let Some(r) = r {
                            check_abandoned(i, &calls[i], &r, w)?;
                        }
                        continue;
                    }
                    if kept.contains(&i) {
                        return soft(format!("wave {w}: call {i} returned {r:?} before it was answered"));
                    }
                    if let Some(r @ (Res::Ok(_) | Res::Message(_))) = r {
                        return hard(format!("wave {w}: call {i} returned {r:?} before it was answered"));
                    }
                }
                e = hub.next(8 * SECS) => match e {
                    None => return soft(format!("wave {w}: requests of calls {:?} do not arrive", kept.iter().filter(|i| !complete.contains_key(i)).collect::<Vec<_>>())),
                    Some((_, Did::Garbled(e))) => return hard(format!("client sent {e}")),
                    Some((k, Did::Frame(f))) => {
                        if f.ty == wire::CALL_REQ {
                            let p = wire::parse_call(&f).map_err(|e| Bad::Hard(format!("request frame: {e}")))?;
                            let i = std::str::from_utf8(&p.chunks[0]).ok().and_then(|s| s.strip_prefix('c')).and_then(|s| s.parse::<usize>().ok());
                            match i {
                                Some(i) if i < calls.len() => { if got.insert((k, f.id), (i, 0)).is_some() { return hard(format!("id {} is used a second time", f.id)); } }
                                _ => return hard("a request nobody made"),
                            }
                        }
                        if let Some((i, n)) = got.get_mut(&(k, f.id)) {
                            *n += 1;
                            if let Fate::Requested(m) = calls[*i].fate {
                                if *n == m as usize && live.remove(i) {
                                    handles[i].abort();
                                    dropped.insert(*i);
                                }
                            }
                        }
                        if let Some(m) = hub.call(k, &f)? {
                            let Some((i, _)) = got.get(&(k, f.id)).copied() else { return hard("a request without beginning goes on") };
                            if Parts::from_args(&m.args).as_ref() != Some(&request(i, &calls[i])) {
                                return hard(format!("wave {w}: request of call {i} arrived wrong"));
                            }
                            if i < base {
                                continue;
                            }
                            if complete.insert(i, (k, f.id)).is_some() {
                                return hard(format!("wave {w}: call {i} was sent twice"));
                            }
                            // It has fewer frames than were waited for.
                            if matches!(calls[i].fate, Fate::Requested(_)) && live.remove(&i) {
                                handles[&i].abort();
                                dropped.insert(i);
                            }
                        }
                    }
                    Some(_) => {}
                }
            }
        }
        // Answers.
        let mut seqs: Vec<(usize, usize, VecDeque<Frame>)> = vec![];
        for (i, k, fr) in late.drain(..) {
            seqs.push((i, k, fr.into()));
        }
        for (i, (k, id)) in &complete {
            let x = &calls[*i];
            let mut fr = Msg::reply(0, "raw", reply(*i, x).args()).split(*id, &x.plan);
            if !kept.contains(i) {
                match x.answer {
                    Answer::Whole => {}
                    Answer::Part(n) => {
                        let n = (n as usize).min(fr.len() - 1);
                        fr.truncate(n);
                    }
                    Answer::ErrorFrame => fr = vec![wire::error(*id, 5, b"no")],
                    Answer::Never => fr.clear(),
                    Answer::Late => {
                        if !matches!(x.fate, Fate::Responded(_)) {
                            late.push((*i, *k, std::mem::take(&mut fr)));
                        }
                    }
                }
                if let Fate::Responded(_) = x.fate {
                    if fr.last().is_some_and(|f| f.ty == wire::ERROR) {
                        fr.clear();
                    }
                }
            }
            seqs.push((*i, *k, fr.into()));
        }
        let total: Vec<usize> = seqs.iter().map(|s| s.2.len()).collect();
        let frames = wire::interleave(seqs.iter().map(|s| s.2.iter().cloned().collect()).collect(), &wave.picks);
        let mut sent = vec![0; seqs.len()];
        let cut = |live: &mut BTreeSet<usize>, dropped: &mut BTreeSet<usize>, i: usize, n: usize, total: usize| {
            if let Fate::Responded(m) = calls[i].fate {
                if n >= (m as usize).min(total.saturating_sub(1)) && live.remove(&i) {
                    handles[&i].abort();
                    dropped.insert(i);
                    return true;
                }
            }
            false
        };
        for (s, seq) in seqs.iter().enumerate() {
            if seq.0 >= base {
                cut(&mut live, &mut dropped, seq.0, 0, total[s]);
            }
        }
        for (s, f) in frames {
            let (i, k) = (seqs[s].0, seqs[s].1);
            hub.send(k, &[f]);
            sent[s] += 1;
            if i >= base && cut(&mut live, &mut dropped, i, sent[s], total[s]) && !wave.blind {
                // Some of it is on its way.
                tokio::task::yield_now().await;
            }
        }
        for i in &live {
            handles[i].abort();
        }
        // Results.
        while kept.iter().any(|i| !done.contains_key(i)) {
            match tokio::time::timeout(8 * SECS, results.recv()).await {
                Ok(Some((i, Some(r)))) => {
                    let at = all.contains(&i);
                    if at && kept.contains(&i) {
                        done.insert(i, r);
                    } else {
                        check_abandoned(i, &calls[i], &r, w)?;
                    }
                }
                Ok(_) => {}
                Err(_) => return soft(format!("wave {w}: calls {:?} do not return among abandoned ones", kept.iter().filter(|i| !done.contains_key(i)).collect::<Vec<_>>())),
            }
        }
        for (i, r) in done {
            expect_ok(r, &reply(i, &calls[i]), &format!("wave {w}: call {i} among abandoned ones"))?;
        }
        for (_, h) in handles {
            h.abort();
            let _ = h.await;
        }
        // Requests of dropped calls which are still coming belong to no later wave: calls are numbered.
    }
    while let Ok((i, Some(r))) = results.try_recv() {
        if calls[i].fate != Fate::Keep {
            check_abandoned(i, &calls[i], &r, waves.len())?;
        }
    }
    Ok(())
}
/// A call may be done before it is dropped: then with its own reply.
fn check_abandoned(i: usize, x: &Call, r: &Res<Parts>, w: usize) -> R {
    match r {
        Res::Ok(p) if *p == reply(i, x) => Ok(()),
        Res::Fail(_) => Ok(()),
        r => hard(format!("wave {w}: call {i}, about to be dropped, got {r:?}")),
    }
}

async fn served(knobs: Knobs, waves: Vec<Vec<Call>>, ctx: Ctx) -> R {
    let addr = ctx.addr();
    let ch = channel(&knobs, addr)?;
    let ss = sub(&ch, "svc").await?;
    let total: usize = waves.iter().map(|w| w.len()).sum();
    let made: Arc<Vec<Call>> = Arc::new(waves.iter().flatten().cloned().collect());
    let seen: Log<usize> = Log::default();
    let wrong: Log<String> = Log::default();
    for i in 0..total {
        let (made, seen, wrong) = (made.clone(), seen.clone(), wrong.clone());
        register_async(&ss, &format!("c{i}"), move |m: RawMessage| {
            let (made, seen, wrong) = (made.clone(), seen.clone(), wrong.clone());
            Box::pin(async move {
                if Parts::of(&m) != request(i, &made[i]) {
                    wrong.push(format!("handler of call {i} got {:?}", Parts::of(&m)));
                }
                seen.push(i);
                tokio::task::yield_now().await;
                Ok(reply(i, &made[i]).msg())
            }) as Reply<_>
        }).await?;
    }
    start(&ch, addr).await?;
    let cl = client(&knobs)?;
    let cs = sub(&cl, "svc").await?;
    let mut base = 0;
    for (w, wave) in waves.iter().enumerate() {
        let mut ts = vec![];
        for (k, x) in wave.iter().enumerate() {
            let i = base + k;
            let (cs, p, fate, seen) = (cs.clone(), request(i, x), x.fate, seen.clone());
            let polls = match fate {
                Fate::Polls(n) | Fate::Responded(n) => Some((n as usize + 1, None)),
                Fate::Steps(n) => Some((n as usize, Some(1))),
                _ => None,
            };
            let h = tokio::spawn(async move {
                let f = call(&cs, &p, addr);
                match polls {
                    Some((n, step)) => at_most(f, n, step).await,
                    None => Some(f.await),
                }
            });
            match fate {
                Fate::Yields(n) => {
                    for _ in 0..n {
                        tokio::task::yield_now().await;
                    }
                    h.abort();
                }
                // Dropped when it is being handled.
                Fate::Requested(_) => {
                    if !eventually(8000, || seen.get().contains(&i)).await {
                        return soft(format!("wave {w}: call {i} does not reach its handler"));
                    }
                    h.abort();
                }
                _ => {}
            }
            ts.push((i, h));
        }
        base += wave.len();
        for (i, t) in ts {
            let x = &made[i];
            match (x.fate, t.await) {
                (Fate::Keep, Ok(Some(r))) => expect_ok(r, &reply(i, x), &format!("wave {w}: call {i} among abandoned ones"))?,
                (Fate::Keep, r) => return hard(format!("wave {w}: call {i}: {r:?}")),
                (_, Ok(Some(Res::Fail(e)))) => return soft(format!("wave {w}: call {i}, about to be dropped, failed: {e}")),
                (_, Ok(Some(r))) => check_abandoned(i, x, &r, w)?,
                (_, Err(e)) if e.is_panic() => return hard(format!("wave {w}: call {i}: {e}")),
                (_, _) => {}
            }
        }
        if let Some(s) = wrong.get().first() {
            return hard(s.clone());
        }
    }
    let mut s = seen.get();
    let n = s.len();
    s.sort();
    s.dedup();
    if s.len() != n {
        return hard("a request was handled twice");
    }
    Ok(())
}
