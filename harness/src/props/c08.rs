//! A failing call fails alone.
use super::prelude::*;
use peer::{Answer, Inbox};
use serde_json::{Map, Value};
use tchannel_rs::errors::{HandlerError, TChannelError};
use tchannel_rs::messages::{JsonMessage, RawMessage};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    /// The callers: a raw connection, or a client of the crate.
    raw: bool,
    knobs: Knobs,
    client: Knobs,
    calls: Vec<Call>,
    picks: Vec<u8>,
    seg: Vec<u16>,
    /// Calls are made in groups of this size.
    group: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    bad: Option<Fault>,
    a: [Arg; 2],
    plan: Plan,
    ep: u8,
    n: u16,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fault {
    UnknownService,
    UnknownEndpoint,
    /// The handler reports an error of this many bytes.
    General(u32),
    Internal(u32),
    /// JSON to a handler of raw messages.
    WrongScheme,
    /// Raw to a handler of JSON messages.
    WrongScheme2,
    BadJson(u8),
    BadJsonBody(u8),
    // What only a raw connection can send:
    EndpointNotUtf8,
    ServiceNotUtf8,
    HeaderNotUtf8,
    NoScheme,
    UnknownScheme,
    OtherScheme(u8),
    Checksum(u8),
    UnknownChecksum(u8),
    /// The first frame ends early.
    Truncated(u16),
    /// The last frame's chunk is longer than the frame.
    LongChunk(u16),
    /// A frame of a response, or an error frame, in the middle.
    WrongContinuation,
    ErrorInside,
    TooManyArgs(u8),
}
use Fault::*;
pub struct P;

const BAD_JSON: [&str; 8] = ["", "{", "[]", "null", "{\"a\":}", "{} x", "\"s\"", "{'a':1}"];
fn bad(raw: bool) -> BoxedStrategy<Fault> {
    let n = || prop_oneof![Just(0u32), 1u32..200, Just(65491), 65000u32..66000, 66000u32..200_000];
    let both = prop_oneof![2 => Just(UnknownService), 2 => Just(UnknownEndpoint), 2 => n().prop_map(General), 2 => n().prop_map(Internal), 1 => Just(WrongScheme), 1 => Just(WrongScheme2)];
    if !raw {
        return both.boxed();
    }
    prop_oneof![
        6 => both,
        2 => any::<u8>().prop_map(BadJson),
        2 => any::<u8>().prop_map(BadJsonBody),
        1 => Just(EndpointNotUtf8),
        1 => Just(ServiceNotUtf8),
        1 => Just(HeaderNotUtf8),
        1 => Just(NoScheme),
        1 => Just(UnknownScheme),
        1 => (0u8..3).prop_map(OtherScheme),
        2 => (1u8..=3).prop_map(Checksum),
        1 => (4u8..=255).prop_map(UnknownChecksum),
        2 => any::<u16>().prop_map(Truncated),
        2 => any::<u16>().prop_map(LongChunk),
        1 => Just(WrongContinuation),
        1 => Just(ErrorInside),
        1 => (4u8..9).prop_map(TooManyArgs),
    ]
    .boxed()
}

/// The frames of a call that cannot be served.
fn bad_frames(b: Fault, x: &Call, p: &Parts, id: u32) -> Vec<Frame> {
    let json = |h: &str, d: &str, ep: &str| Msg::request("svc", "json", [ep.as_bytes().to_vec(), h.as_bytes().to_vec(), d.as_bytes().to_vec()]);
    let mut m = Msg::request("svc", "raw", p.args());
    let mut plan = x.plan.clone();
    match b {
        UnknownService => m.service = unknown_service(x.n).into_bytes(),
        UnknownEndpoint => m.args[0] = unknown(x.n).into_bytes(),
        ServiceNotUtf8 => m.service = [&[0xff][..], b"svc\xc3", b"\xe2\x82svc"][x.n as usize % 3].to_vec(),
        General(n) => {
            m.args[0] = b"general".to_vec();
            m.args[1] = n.to_string().into_bytes();
        }
        Internal(n) => {
            m.args[0] = b"internal".to_vec();
            m.args[1] = n.to_string().into_bytes();
        }
        WrongScheme => m = json("{}", "{}", &p.ep),
        WrongScheme2 => m.args = vec![b"json".to_vec(), b"{}".to_vec(), b"{}".to_vec()],
        BadJson(k) => m = json(BAD_JSON[k as usize % BAD_JSON.len()], "{}", "json"),
        BadJsonBody(k) => m = json("{}", BAD_JSON[k as usize % BAD_JSON.len()], "json"),
        EndpointNotUtf8 => m.args[0] = vec![0xff, b'e', 0xc0],
        HeaderNotUtf8 => m.args[1] = vec![0xe0, 0x80],
        NoScheme => m.headers.retain(|h| h.0 != b"as"),
        UnknownScheme => m.headers[0].1 = [&b""[..], b"RAW", b"raw ", b"x", b"protobuf"][x.n as usize % 5].to_vec(),
        OtherScheme(k) => m.headers[0].1 = [&b"thrift"[..], b"sthrift", b"http"][k as usize % 3].to_vec(),
        _ => {}
    }
    if matches!(b, WrongContinuation | ErrorInside) {
        plan.cuts.push(wire::Cut::Near { arg: 1, d: 0 });
    }
    let mut f = m.split(id, &plan);
    let fields = m.fields().len();
    match b {
        Checksum(t) | UnknownChecksum(t) => {
            // In any one frame; where a value belongs it is there.
            let k = x.n as usize % f.len();
            let at = 1 + if k == 0 { fields } else { 0 };
            f[k].body[at] = t;
            if let Checksum(_) = b {
                let v = [0x12u8, 0x34, 0x56, 0x78];
                f[k].body.splice(at + 1..at + 1, v);
                f[k].body.truncate(65535 - 16);
            }
        }
        Truncated(n) => {
            let l = 1 + fields;
            f[0].body.truncate(n as usize % (l + 1));
        }
        LongChunk(n) => {
            let k = f.len() - 1;
            let at = 1 + if k == 0 { fields } else { 0 } + 1;
            let rest = f[k].body.len() - at - 2;
            let n = (rest + 1 + n as usize % 2000).min(65535) as u16;
            f[k].body[at..at + 2].copy_from_slice(&n.to_be_bytes());
        }
        WrongContinuation => f[1].ty = wire::RES_CONT,
        ErrorInside => f[1] = wire::error(id, 5, b"given up"),
        TooManyArgs(n) => {
            let mut b = vec![0];
            b.extend(m.fields());
            b.push(0);
            for i in 0..n {
                b.extend([0, 1, b'a' + i]);
            }
            f = vec![Frame::new(wire::CALL_REQ, id, b)];
        }
        _ => {}
    }
    f
}
fn unknown(n: u16) -> String {
    let k = n as usize / 16;
    match n % 16 {
        0..=8 => ["", "E0", "e", "e00", "e0 ", "json2", "e9", "e0\0", " e0"][n as usize % 16].to_string(),
        9..=12 => blob::text(n as u8, 8 + k % 300, n % 2 == 0),
        13 => format!("e0{}", blob::text(n as u8, 1 + k, true)),
        _ => blob::text(n as u8, 8 + k * 40, n % 2 == 0),
    }
}
/// No service of the server; up to 255 bytes.
fn unknown_service(n: u16) -> String {
    let k = n as usize / 16;
    match n % 16 {
        0..=6 => ["", "sv", "svc2", "Svc", "svc\0", "svc ", "other"][n as usize % 16].to_string(),
        7 | 8 => format!("svc{}", blob::text(n as u8, 1 + k % 252, n % 2 == 0)),
        _ => blob::text(n as u8, 4 + k % 252, n % 2 == 0),
    }
}

impl Prop for P {
    type C = C;
    const ID: &'static str = "C08";
    const RULE: &'static str = "2-16 calls, good ones mixed with ones that cannot be served (21 kinds of failure on a raw connection, 6 through the crate's client), made in groups whose frames interleave; every bad call must be answered with exactly one error, every good one with its own reply. Non-trivial: there is a bad and a good call.";
    const LONG: usize = 16;
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 10_000 } else { 600_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let big = t.pick(90_000, 300_000, 90_000);
        any::<bool>()
            .prop_flat_map(move |raw| {
                let a2 = prop_oneof![8 => [blob::small_arg(), blob::small_arg()], 1 => [blob::small_arg(), blob::arg(big)]];
                let call = (proptest::option::weighted(0.5, bad(raw)), a2, wire::gen::plan(4), 0u8..4, any::<u16>()).prop_map(|(bad, a, plan, ep, n)| Call { bad, a, plan, ep, n }).boxed();
                (Just(raw), knobs(), knobs(), vec(call, t.steps(2..=16, 300..=2000)), vec(any::<u8>(), 0..10), vec(any::<u16>(), 0..3), 1u8..8)
            })
            .prop_map(|(raw, knobs, client, calls, picks, seg, group)| C { raw, knobs, client, calls, picks, seg, group })
            .boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl = vec![if c.raw { "raw connection".to_string() } else { "client".to_string() }];
        for b in c.calls.iter().filter_map(|x| x.bad) {
            let s = format!("{b:?}");
            cl.push(s.split('(').next().unwrap().to_string());
            if let General(n) | Internal(n) = b {
                if n > 65000 {
                    cl.push("error message around or over a frame".into());
                }
            }
        }
        cl.sort();
        cl.dedup();
        (c.calls.iter().any(|x| x.bad.is_some()) && c.calls.iter().any(|x| x.bad.is_none()), cl)
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            let addr = ctx.addr();
            let server = channel(&c.knobs, addr)?;
            let ss = sub(&server, "svc").await?;
            let log: Log<Parts> = Log::default();
            let all: Arc<Vec<(Parts, Parts)>> = Arc::new(
                c.calls
                    .iter()
                    .enumerate()
                    .map(|(i, x)| {
                        let mut cur = Cursor::new(blob::request_room(3, 3));
                        let req = Parts { ep: format!("e{}", x.ep), header: format!("{i}:{}", x.a[0].text(&mut cur)), body: x.a[1].bytes(&mut cur) };
                        (req, Parts::new(format!("r{i}"), format!("h{i}"), blob::bytes(x.n as u8, x.n as usize)))
                    })
                    .collect(),
            );
            for e in 0..4 {
                let (log, all) = (log.clone(), all.clone());
                let f = move |m: RawMessage| {
                    log.push(Parts::of(&m));
                    let i: Option<usize> = m.header().split(':').next().and_then(|s| s.parse().ok());
                    Ok(match i.and_then(|i| all.get(i)) { Some(x) => x.1.msg(), None => Parts::new("?", "", "").msg() })
                };
                if e % 2 == 0 {
                    register(&ss, &format!("e{e}"), true, f).await?;
                } else {
                    let f = Arc::new(f);
                    register_async(&ss, &format!("e{e}"), move |m| {
                        let f = f.clone();
                        Box::pin(async move { tokio::task::yield_now().await; f(m) }) as Reply<_>
                    }).await?;
                }
            }
            let error_text = |m: &RawMessage| blob::text(7, m.header().parse().unwrap_or(0), true);
            register(&ss, "general", c.group % 2 == 0, move |m: RawMessage| Err(HandlerError::GeneralError(error_text(&m)))).await?;
            register(&ss, "internal", c.group % 2 == 1, move |m: RawMessage| Err(HandlerError::InternalError(TChannelError::Error(error_text(&m))))).await?;
            register(&ss, "json", c.group % 3 == 0, |_: JsonMessage| Ok(JsonMessage::new("j".into(), Map::<String, Value>::new(), Map::new()))).await?;
            start(&server, addr).await?;
            let show = |i: usize| format!("call {i} ({:?})", c.calls[i].bad);
            if c.raw {
                let mut r = Raw::client(addr).await?;
                let mut inbox = Inbox::default();
                let id = |i: usize| 10 + i as u32;
                let mut done = 0;
                while done < all.len() {
                    let next = (done + c.group as usize).min(all.len());
                    let seqs = (done..next).map(|i| match c.calls[i].bad {
                        None => Msg::request("svc", "raw", all[i].0.args()).split(id(i), &c.calls[i].plan),
                        Some(b) => bad_frames(b, &c.calls[i], &all[i].0, id(i)),
                    }).collect();
                    let frames: Vec<Frame> = wire::interleave(seqs, &c.picks).into_iter().map(|f| f.1).collect();
                    r.send_segments(&wire::enc_all(&frames), &c.seg, false).await?;
                    let what: Vec<String> = (done..next).map(show).collect();
                    r.collect(&mut inbox, &what.join(", "), |b| (done..next).all(|i| b.has(id(i)))).await?;
                    done = next;
                }
                // A last call: surplus answers have arrived by its answer.
                for f in Msg::request("svc", "raw", [b"e1".to_vec(), b"last".to_vec(), vec![]]).whole(9) {
                    r.send(&f).await?;
                }
                r.collect(&mut inbox, "a last call", |b| b.has(9)).await?;
                for i in 0..all.len() {
                    let a = inbox.of(id(i));
                    if a.len() != 1 {
                        return hard(format!("{} was answered {} times: {:?}", show(i), a.len(), a.iter().map(|a| a.show()).collect::<Vec<_>>()));
                    }
                    match (a[0], c.calls[i].bad) {
                        (a, Some(_)) if a.is_error() => {}
                        (Answer::Reply(m), None) if m.code == 0 && Parts::from_args(&m.args).as_ref() == Some(&all[i].1) => {}
                        (a, _) => return hard(format!("{} was answered with {}", show(i), a.show())),
                    }
                }
            } else {
                let cl = client(&c.client)?;
                let s = sub(&cl, "svc").await?;
                let mut done = 0;
                while done < all.len() {
                    let next = (done + c.group as usize).min(all.len());
                    let mut tasks = vec![];
                    for i in done..next {
                        let s = match c.calls[i].bad {
                            Some(UnknownService) => [s.clone(), sub(&cl, &unknown_service(c.calls[i].n)).await?],
                            _ => [s.clone(), s.clone()],
                        };
                        let (s, all, b, n) = (s.clone(), all.clone(), c.calls[i].bad, c.calls[i].n);
                        tasks.push(tokio::spawn(async move {
                            let p = &all[i].0;
                            match b {
                                None => call(&s[0], p, addr).await,
                                Some(UnknownService) => call(&s[1], p, addr).await,
                                Some(General(n)) => call(&s[0], &Parts::new("general", n.to_string(), ""), addr).await,
                                Some(Internal(n)) => call(&s[0], &Parts::new("internal", n.to_string(), ""), addr).await,
                                Some(WrongScheme) => call_json(&s[0], JsonMessage::new(p.ep.clone(), Map::new(), Map::new()), addr).await.map(|_| Parts::new("?", "", "")),
                                Some(WrongScheme2) => call(&s[0], &Parts::new("json", "{}", "{}"), addr).await,
                                Some(_) => call(&s[0], &Parts { ep: unknown(n), ..p.clone() }, addr).await,
                            }
                        }));
                    }
                    for (i, t) in (done..next).zip(tasks) {
                        let got = match t.await { Ok(g) => g, Err(e) => return hard(format!("{}: {e}", show(i))) };
                        match (c.calls[i].bad, got) {
                            (None, g) => expect_ok(g, &all[i].1, &show(i))?,
                            (Some(_), Res::Fail(_) | Res::Message(_)) => {}
                            (Some(_), g) => return hard(format!("{} gave {g:?}", show(i))),
                        }
                    }
                    done = next;
                }
            }
            let mut got: Vec<Parts> = log.get().into_iter().filter(|p| p.header != "last").collect();
            got.sort();
            let mut want: Vec<Parts> = (0..all.len()).filter(|i| c.calls[*i].bad.is_none()).map(|i| all[i].0.clone()).collect();
            want.sort();
            if got != want {
                return hard(format!("handled {got:?}, good calls were {want:?}"));
            }
            Ok(())
        })
    }
}
