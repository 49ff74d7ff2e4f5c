//! No response crashes the caller.
use super::prelude::*;
use crate::fuzz::{self, ByteMut, Loose, Mut};
use serde_json::{Map, Value};
use std::collections::HashMap;
use tchannel_rs::messages::{JsonMessage, RawMessage};
use tokio::sync::Notify;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    knobs: Knobs,
    /// The pending calls: whether they are JSON calls.
    calls: Vec<bool>,
    items: Vec<Item>,
    picks: Vec<u8>,
    muts: Vec<Mut>,
    bytes: Vec<ByteMut>,
    seg: Vec<u16>,
    /// How much of it is sent before any call is read (a 256th of the bytes).
    early: u8,
    reset: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Item {
    Reply { call: u8, code: u8, scheme: u8, text: bool, a: [Arg; 3], plan: Plan },
    Loose(Loose),
    Error(u8, u8, u16),
}
pub struct P;

fn reply(i: usize) -> Parts {
    Parts::new("ok", format!("{i}"), blob::bytes(i as u8, 10))
}
fn json_reply(i: usize) -> Parts {
    Parts::new("ok", format!("{{\"r\":{i}}}"), "{}")
}
/// The call's number, from its arguments.
fn number(m: &Msg) -> Option<usize> {
    std::str::from_utf8(m.args.first()?).ok()?.strip_prefix('c')?.parse().ok()
}
impl C {
    fn stream(&self, ids: &HashMap<usize, u32>) -> Vec<u8> {
        let id = |k: u8| ids.get(&(k as usize)).copied().unwrap_or(k as u32 + 1);
        let seqs = self
            .items
            .iter()
            .map(|x| match x {
                Item::Reply { call, code, scheme, text, a, plan } => {
                    let k = *call as usize % self.calls.len();
                    let json = self.calls[k];
                    let mut cur = Cursor::new(blob::response_room(0, 3));
                    let args = if json && *text {
                        let s = serde_json::to_string(&a[1].text(&mut cur)).unwrap();
                        [a[0].text(&mut cur).into_bytes(), format!("{{\"h\":{s}}}").into_bytes(), b"{\"b\":[1,2]}".to_vec()]
                    } else if *text {
                        [a[0].text(&mut cur).into_bytes(), a[1].text(&mut cur).into_bytes(), a[2].bytes(&mut cur)]
                    } else {
                        [a[0].bytes(&mut cur), a[1].bytes(&mut cur), a[2].bytes(&mut cur)]
                    };
                    let mut m = Msg::reply(*code, if json { "json" } else { "raw" }, args);
                    match scheme {
                        0 => m.headers.clear(),
                        1 => m.headers[0].1 = if json { b"raw".to_vec() } else { b"json".to_vec() },
                        2 => m.headers[0].1 = b"thrift".to_vec(),
                        3 => m.headers[0].1 = vec![0xff, 0xfe],
                        4 => m.headers.push((vec![0xc0], vec![])),
                        _ => {}
                    }
                    m.split(id(k as u8), plan)
                }
                Item::Loose(l) => vec![Frame { id: id(l.id), ..l.frame() }],
                Item::Error(call, code, n) => vec![wire::error(id(*call % self.calls.len() as u8), *code, &vec![b'e'; *n as usize % 3000])],
            })
            .collect();
        let f: Vec<Frame> = wire::interleave(seqs, &self.picks).into_iter().map(|f| f.1).collect();
        fuzz::bytes(wire::enc_all(&fuzz::frames(f, &self.muts)), &self.bytes)
    }
}
fn normal(json: bool, p: Parts) -> Option<Parts> {
    if !json {
        return Some(p);
    }
    let n = |s: &[u8]| serde_json::from_slice::<Map<String, Value>>(s).ok().map(|m| serde_json::to_string(&m).unwrap());
    Some(Parts::new(p.ep.clone(), n(p.header.as_bytes())?, n(&p.body)?))
}

impl Prop for P {
    type C = C;
    const ID: &'static str = "C11";
    const RULE: &'static str = "1-4 pending raw and JSON calls of one client; their server answers with a mix of replies (any code, right and wrong schemes, text or binary, any framing), error frames and stray frames, interleaved, under up to 4 frame mutations and 3 byte mutations, some of it before reading the calls, then closes or resets. Oracle: no panic; every call returns an error or a reply which the bytes sent legally encode for its id; a call to another server in flight meanwhile, and a later call to this one, succeed. Non-trivial: the answer is damaged or not a plain reply.";
    const NO_PANIC: bool = true;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 80_000 } else { 2_500_000 }
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C> {
        let a3 = prop_oneof![8 => [blob::small_arg(), blob::small_arg(), blob::small_arg()], 1 => [blob::small_arg(), blob::small_arg(), blob::arg(70_000)]];
        let r = (any::<u8>(), prop_oneof![4 => Just(0u8), 2 => Just(1), 1 => 2u8..4, 1 => any::<u8>()], prop_oneof![4 => Just(9u8), 1 => 0u8..5], proptest::bool::weighted(0.8), a3, wire::gen::plan(4))
            .prop_map(|(call, code, scheme, text, a, plan)| Item::Reply { call, code, scheme, text, a, plan });
        let item = prop_oneof![6 => r, 2 => fuzz::loose().prop_map(Item::Loose), 1 => (any::<u8>(), any::<u8>(), any::<u16>()).prop_map(|(a, b, c)| Item::Error(a, b, c))];
        let dmg = (vec(fuzz::mutation(), 0..5), prop_oneof![3 => vec(fuzz::byte_mutation(), 0..1), 1 => vec(fuzz::byte_mutation(), 1..4)], vec(any::<u16>(), 0..4));
        (knobs(), vec(proptest::bool::weighted(0.3), 1..=4), vec(item, 0..7), vec(any::<u8>(), 0..8), dmg, prop_oneof![4 => Just(0u8), 1 => any::<u8>()], proptest::bool::weighted(0.2))
            .prop_map(|(knobs, calls, items, picks, (muts, bytes, seg), early, reset)| C { knobs: Knobs { conns: 1, ..knobs }, calls, items, picks, muts, bytes, seg, early, reset })
            .boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl: Vec<String> = c.muts.iter().map(|m| format!("{:?}", m.kind).split(['(', ' ']).next().unwrap().to_string()).collect();
        let mut odd = false;
        for x in &c.items {
            match x {
                Item::Reply { scheme, code, .. } => {
                    odd |= *scheme < 5 || *code > 1;
                    cl.push(if *scheme < 5 { "wrong scheme or headers" } else if *code > 1 { "unknown code" } else { "proper reply" }.into());
                }
                Item::Loose(_) => {
                    odd = true;
                    cl.push("stray frame".into())
                }
                Item::Error(..) => cl.push("error frame".into()),
            }
        }
        if !c.bytes.is_empty() {
            cl.push("byte mutations".into());
        }
        if c.early > 0 {
            cl.push("early".into());
        }
        cl.sort();
        cl.dedup();
        (odd || !c.muts.is_empty() || !c.bytes.is_empty(), cl)
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            let (addr, other) = (ctx.addr(), ctx.addr());
            // The other server: answers when told.
            let server = channel(&Knobs::default(), other)?;
            let go = Arc::new(Notify::new());
            let g = go.clone();
            let ss = sub(&server, "svc").await?;
            register_async(&ss, "slow", move |m: RawMessage| {
                let g = g.clone();
                Box::pin(async move { g.notified().await; Ok(m) }) as Reply<_>
            }).await?;
            start(&server, other).await?;
            let l = peer::listen(addr)?;
            let cl = client(&c.knobs)?;
            let cs = sub(&cl, "svc").await?;
            let slow = Parts::new("slow", "h", "b");
            let pending = tokio::spawn({ let (cs, slow) = (cs.clone(), slow.clone()); async move { call(&cs, &slow, other).await } });
            let callers_done = Arc::new(Notify::new());
            let script = tokio::spawn({
                let (c, callers_done) = (c.clone(), callers_done.clone());
                async move {
                    let mut r = peer::accept(&l).await?;
                    r.welcome().await?;
                    let none = c.stream(&HashMap::new());
                    let mut sent = none[..none.len() * c.early as usize / 256].to_vec();
                    let _ = r.try_send(&sent).await;
                    let mut ids = HashMap::new();
                    let mut asm: HashMap<u32, Asm> = HashMap::new();
                    let mut done = 0;
                    while done < c.calls.len() {
                        let ev = tokio::select! { e = r.wait() => e, _ = callers_done.notified() => break };
                        match ev {
                            Ev::Frame(f) => {
                                let a = asm.entry(f.id).or_default();
                                if let Err(e) = a.feed(&f, true) {
                                    return hard(format!("request: {e}"));
                                }
                                if a.done {
                                    done += 1;
                                    if let Some(k) = number(a.msg.as_ref().unwrap()) {
                                        ids.insert(k, f.id);
                                    }
                                }
                            }
                            Ev::Garbled(e) => return hard(e),
                            _ => break,
                        }
                    }
                    let all = c.stream(&ids);
                    let rest = if c.early == 0 { all } else { all[(all.len() * c.early as usize / 256).min(all.len())..].to_vec() };
                    sent.extend(&rest);
                    let _ = r.send_segments(&rest, &c.seg, false).await;
                    if c.reset {
                        // What was sent may be lost.
                        tokio::time::sleep(Duration::from_millis(1)).await;
                        r.reset().await;
                    } else {
                        r.half_close().await;
                        loop {
                            match r.next(8 * SECS).await {
                                Ev::Frame(_) | Ev::Garbled(_) => {}
                                Ev::Quiet => return soft("the client keeps a connection its server closed"),
                                _ => break,
                            }
                        }
                    }
                    // From now on it behaves.
                    let good = tokio::spawn(async move {
                        loop {
                            let mut r = peer::accept(&l).await?;
                            tokio::spawn(async move {
                                r.welcome().await?;
                                let mut asm: HashMap<u32, Asm> = HashMap::new();
                                while let Ev::Frame(f) = r.wait().await {
                                    let a = asm.entry(f.id).or_default();
                                    let _ = a.feed(&f, true);
                                    if a.done {
                                        let m = a.msg.clone().unwrap();
                                        let k = number(&m).unwrap_or(99);
                                        let json = fuzz::scheme_is(&m, "json");
                                        let p = if json { json_reply(k) } else { reply(k) };
                                        for f in Msg::reply(0, if json { "json" } else { "raw" }, p.args()).whole(f.id) {
                                            r.send(&f).await?;
                                        }
                                    }
                                }
                                R::Ok(())
                            });
                        }
                        #[allow(unreachable_code)]
                        R::Ok(())
                    });
                    Ok((sent, ids, good))
                }
            });
            let ask = |cs: Arc<tchannel_rs::SubChannel>, k: usize, json: bool| async move {
                if json {
                    call_json(&cs, JsonMessage::new(format!("c{k}"), Map::new(), Map::new()), addr).await.map(|m| Parts::new(m.method_name().clone(), serde_json::to_string(m.headers()).unwrap(), serde_json::to_string(m.body()).unwrap()))
                } else {
                    call(&cs, &Parts::new(format!("c{k}"), "h", "b"), addr).await
                }
            };
            let tasks: Vec<_> = c.calls.iter().enumerate().map(|(k, j)| tokio::spawn(ask(cs.clone(), k, *j))).collect();
            let mut got = vec![];
            for t in tasks {
                match t.await {
                    Ok(g) => got.push(g),
                    Err(e) => return hard(format!("caller: {e}")),
                }
            }
            callers_done.notify_one();
            let (sent, ids, good) = match script.await {
                Ok(r) => r?,
                Err(e) => return hard(format!("harness: {e}")),
            };
            let legal = fuzz::messages(&fuzz::parse(&sent), true);
            for (k, g) in got.into_iter().enumerate() {
                let json = c.calls[k];
                let (code, p) = match g {
                    Res::Fail(_) => continue,
                    Res::Ok(p) => (0, p),
                    Res::Message(p) => (1, p),
                };
                let own = if json { json_reply(k) } else { reply(k) };
                let fine = legal.iter().any(|(id, m)| {
                    ids.get(&k).is_none_or(|i| i == id) && m.code == code && fuzz::scheme_is(m, if json { "json" } else { "raw" }) && Parts::from_args(&m.args).and_then(|p| normal(json, p)).as_ref() == Some(&p)
                });
                // It may have been made again on a later connection.
                if !fine && !(code == 0 && p == own) {
                    return hard(format!("call {k} (id {:?}) returned code {code} {p:?}, which the server's bytes do not legally encode", ids.get(&k)));
                }
            }
            go.notify_one();
            match pending.await {
                Ok(g) => expect_ok(g, &slow, "a call to another server")?,
                Err(e) => return hard(format!("caller: {e}")),
            }
            if c.reset {
                // Nothing tells when the reset has been noticed.
                for i in 0..100 {
                    match ask(cs.clone(), 7, false).await {
                        Res::Fail(_) if i < 99 => tokio::time::sleep(Duration::from_millis(5)).await,
                        g => {
                            expect_ok(g, &reply(7), "a later call")?;
                            break;
                        }
                    }
                }
            } else {
                expect_ok(ask(cs.clone(), 7, false).await, &reply(7), "a later call")?;
            }
            good.abort();
            Ok(())
        })
    }
}
