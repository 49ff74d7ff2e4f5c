//! Handler outcomes reach the caller as what they are.
use super::prelude::*;
use peer::Answer;
use serde_json::{Map, Value};
use tchannel_rs::errors::{CodecError, ConnectionError, HandlerError, TChannelError};
use tchannel_rs::handler::HandlerResult;
use tchannel_rs::messages::{JsonMessage, Message as _, RawMessage};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    /// Who answers, who asks: both of the crate, or one of them scripted.
    mode: Mode,
    knobs: Knobs,
    calls: Vec<Call>,
    concurrent: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Mode {
    Both,
    RawCaller,
    ScriptedServer,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    out: Outcome,
    args: [Arg; 3],
    json: bool,
    plain: bool,
    plan: Plan,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Outcome {
    Success,
    ErrorMessage,
    General(u16),
    Internal(u8, u16),
    /// Scripted server: a response code beyond 1, an error frame of this code.
    Code(u8),
    ErrorFrame(u8, #[serde(default)] u16),
}
use Outcome::*;
pub struct P;

fn object(s: &str) -> Map<String, Value> {
    [(String::from("k"), Value::String(s.to_string()))].into_iter().collect()
}
fn text(n: u16) -> String {
    blob::text(n as u8, n as usize, true)
}
fn outcome<M: tchannel_rs::messages::Message>(o: Outcome, m: M) -> HandlerResult<M> {
    match o {
        ErrorMessage => Err(HandlerError::MessageError(m)),
        General(n) => Err(HandlerError::GeneralError(text(n))),
        Internal(k, n) => Err(HandlerError::InternalError(match k % 3 {
            0 => TChannelError::Error(text(n)),
            1 => TChannelError::CodecError(CodecError::Error(text(n))),
            _ => TChannelError::ConnectionError(ConnectionError::Error(text(n))),
        })),
        _ => Ok(m),
    }
}
/// Whether an error shows its text, as it is or as strings are shown for debugging.
fn shows(error: &str, text: &str) -> bool {
    let escaped = format!("{text:?}");
    error.contains(text) || error.contains(&escaped[1..escaped.len() - 1])
}
/// What the caller must see: None for an error that is no message.
fn check(o: Outcome, want: &Parts, got: &Res<Parts>, what: &str) -> R {
    match (o, got) {
        (Success, Res::Ok(p)) if p == want => Ok(()),
        (ErrorMessage, Res::Message(p)) if p == want => Ok(()),
        (General(n) | Internal(_, n) | ErrorFrame(_, n), Res::Fail(e)) if shows(e, &text(n)) => Ok(()),
        (ErrorFrame(9..=254, _), Res::Fail(_)) => Ok(()),
        // May be the error of something else, such as a lost connection.
        (General(n) | Internal(_, n) | ErrorFrame(_, n), Res::Fail(e)) => soft(format!("{what}: {o:?} arrived as {e:?}, without the text {:?}", text(n))),
        (Code(_), Res::Fail(_) | Res::Message(_)) => Ok(()),
        (Success | ErrorMessage, Res::Fail(e)) => soft(format!("{what}: {o:?} with {want:?} arrived as error {e}")),
        (o, g) => hard(format!("{what}: {o:?} with {want:?} arrived as {g:?}")),
    }
}

impl Prop for P {
    type C = C;
    const ID: &'static str = "C09";
    const RULE: &'static str = "1-8 calls, one after the other or all at once, whose handlers succeed, return an error message, a general or an internal error (contents from empty to several frames, raw and JSON, plain and async handlers), seen by the crate's client and by a raw caller; or a scripted server answering the client with any response code or error frame. Non-trivial: there are two different outcomes.";
    const LONG: usize = 16;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 24_000 } else { 700_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let big = t.pick(90_000, 300_000, 90_000);
        prop_oneof![3 => Just(Mode::Both), 2 => Just(Mode::RawCaller), 2 => Just(Mode::ScriptedServer)]
            .prop_flat_map(move |mode| {
                let args = prop_oneof![6 => [blob::small_arg(), blob::small_arg(), blob::small_arg()], 1 => [blob::small_arg(), blob::arg(big), blob::arg(big)]];
                let handler = prop_oneof![2 => Just(Success), 2 => Just(ErrorMessage), 1 => (0u16..500).prop_map(General), 1 => (any::<u8>(), 0u16..500).prop_map(|(k, n)| Internal(k, n))].boxed();
                let out = if mode == Mode::ScriptedServer {
                    prop_oneof![2 => Just(Success), 2 => Just(ErrorMessage), 2 => prop_oneof![2u8..5, 2u8..=255].prop_map(Code), 1 => (prop_oneof![0u8..8, any::<u8>()], 0u16..500).prop_map(|(c, n)| ErrorFrame(c, n))].boxed()
                } else {
                    handler
                };
                let call = (out, args, proptest::bool::weighted(0.3), any::<bool>(), wire::gen::plan(3)).prop_map(|(out, args, json, plain, plan)| Call { out, args, json, plain, plan });
                (Just(mode), knobs(), vec(call, t.steps(1..=8, 1000..=5000)), any::<bool>())
            })
            .prop_map(|(mode, knobs, calls, concurrent)| C { mode, knobs, calls, concurrent })
            .boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl = vec![format!("{:?}", c.mode)];
        let mut outs = vec![];
        for x in &c.calls {
            let s = format!("{:?}", x.out);
            outs.push(s.split('(').next().unwrap().to_string());
            cl.push(format!("{} {}", outs.last().unwrap(), if x.json { "json" } else { "raw" }));
        }
        outs.sort();
        outs.dedup();
        cl.sort();
        cl.dedup();
        (outs.len() > 1, cl)
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            let addr = ctx.addr();
            // The message each handler answers with, in raw and in JSON form; the wire form.
            let msgs: Vec<(Parts, Parts)> = c
                .calls
                .iter()
                .map(|x| {
                    let p = super::c01::parts(&x.args, blob::response_room(3, if x.json { 4 } else { 3 }));
                    if !x.json {
                        return (p.clone(), p);
                    }
                    let b: String = p.body.iter().map(|b| (b'a' + b % 26) as char).collect();
                    let w = |s: &str| serde_json::to_string(&object(s)).unwrap();
                    (Parts::new(p.ep.clone(), p.header.clone(), b.clone()), Parts::new(p.ep, w(&p.header), w(&b)))
                })
                .collect();
            let json_msg = |p: &Parts| JsonMessage::new(p.ep.clone(), object(&p.header), object(std::str::from_utf8(&p.body).unwrap()));
            let wire_of = |m: JsonMessage| Parts::new(m.method_name().clone(), serde_json::to_string(m.headers()).unwrap(), serde_json::to_string(m.body()).unwrap());
            let what = |i: usize| format!("call {i}");
            let ask = |cs: Arc<tchannel_rs::SubChannel>, i: usize, json: bool| async move {
                if json {
                    call_json(&cs, JsonMessage::new(format!("e{i}"), Map::new(), Map::new()), addr).await.map(wire_of)
                } else {
                    call(&cs, &Parts::new(format!("e{i}"), "", ""), addr).await
                }
            };
            if c.mode == Mode::ScriptedServer {
                let l = peer::listen(addr)?;
                let cl = client(&Knobs { conns: 1, ..c.knobs })?;
                let cs = sub(&cl, "svc").await?;
                let (outs, calls): (Vec<_>, Vec<_>) = (msgs.iter().map(|m| m.1.clone()).collect(), c.calls.clone());
                let server = tokio::spawn(async move {
                    let mut r = peer::accept(&l).await?;
                    r.welcome().await?;
                    for _ in 0..calls.len() {
                        let f = match r.next(8 * SECS).await {
                            Ev::Frame(f) => f,
                            o => return soft(format!("scripted server read {}", o.show())),
                        };
                        let m = match wire::parse_call(&f) { Ok(m) => m, Err(e) => return hard(e) };
                        let i: usize = std::str::from_utf8(&m.chunks[0]).ok().and_then(|s| s[1..].parse().ok()).unwrap_or(0);
                        let x = &calls[i];
                        let code = match x.out { ErrorMessage => 1, Code(c) => c, _ => 0 };
                        let frames = match x.out {
                            ErrorFrame(code, n) => vec![wire::error(f.id, code, text(n).as_bytes())],
                            _ => Msg::reply(code, if x.json { "json" } else { "raw" }, outs[i].args()).split(f.id, &x.plan),
                        };
                        r.send_bytes(&wire::enc_all(&frames)).await?;
                    }
                    Ok(r)
                });
                let mut got = vec![];
                if c.concurrent {
                    let t: Vec<_> = c.calls.iter().enumerate().map(|(i, x)| tokio::spawn(ask(cs.clone(), i, x.json))).collect();
                    for t in t {
                        got.push(t.await.map_err(|e| Bad::Hard(format!("caller: {e}")))?);
                    }
                } else {
                    for (i, x) in c.calls.iter().enumerate() {
                        got.push(ask(cs.clone(), i, x.json).await);
                    }
                }
                for (i, g) in got.iter().enumerate() {
                    check(c.calls[i].out, &msgs[i].1, g, &what(i))?;
                }
                return match server.await { Ok(r) => r.map(|_| ()), Err(e) => hard(e.to_string()) };
            }
            let server = channel(&c.knobs, addr)?;
            let ss = sub(&server, "svc").await?;
            for (i, x) in c.calls.iter().enumerate() {
                let (out, p) = (x.out, msgs[i].0.clone());
                if x.json {
                    let m = json_msg(&p);
                    register(&ss, &format!("e{i}"), x.plain, move |_: JsonMessage| outcome(out, m.clone())).await?;
                } else {
                    register(&ss, &format!("e{i}"), x.plain, move |_: RawMessage| outcome(out, p.msg())).await?;
                }
            }
            start(&server, addr).await?;
            if c.mode == Mode::Both {
                let cl = client(&c.knobs)?;
                let cs = sub(&cl, "svc").await?;
                if c.concurrent {
                    let t: Vec<_> = c.calls.iter().enumerate().map(|(i, x)| tokio::spawn(ask(cs.clone(), i, x.json))).collect();
                    for (i, t) in t.into_iter().enumerate() {
                        let g = t.await.map_err(|e| Bad::Hard(format!("caller: {e}")))?;
                        check(c.calls[i].out, &msgs[i].1, &g, &what(i))?;
                    }
                } else {
                    for (i, x) in c.calls.iter().enumerate() {
                        let g = ask(cs.clone(), i, x.json).await;
                        check(x.out, &msgs[i].1, &g, &what(i))?;
                    }
                }
                return Ok(());
            }
            let mut r = Raw::client(addr).await?;
            let mut inbox = peer::Inbox::default();
            for (i, x) in c.calls.iter().enumerate() {
                let d = if x.json { b"{}".to_vec() } else { vec![] };
                for f in Msg::request("svc", if x.json { "json" } else { "raw" }, [format!("e{i}").into_bytes(), d.clone(), d]).whole(i as u32) {
                    r.send(&f).await?;
                }
                if !c.concurrent {
                    r.collect(&mut inbox, &what(i), |b| b.has(i as u32)).await?;
                }
            }
            r.collect(&mut inbox, "all", |b| (0..c.calls.len()).all(|i| b.has(i as u32))).await?;
            for (i, x) in c.calls.iter().enumerate() {
                let a = inbox.of(i as u32);
                let args = msgs[i].1.args().to_vec();
                match (x.out, a[0]) {
                    (Success, Answer::Reply(m)) if m.code == 0 && m.args == args => {}
                    (ErrorMessage, Answer::Reply(m)) if m.code == 1 && m.args == args => {}
                    (General(n) | Internal(_, n), Answer::Error(_, e)) if shows(&String::from_utf8_lossy(e), &text(n)) => {}
                    (General(_) | Internal(..), Answer::Reply(m)) if m.code > 1 => {}
                    (o, a) => return hard(format!("{}: {o:?} with {:?} is {} on the wire", what(i), msgs[i].1, a.show())),
                }
            }
            Ok(())
        })
    }
}
