//! Any legal framing of a message is understood.
use super::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    /// The reader: a server (requests) or a client (responses).
    server: bool,
    msgs: Vec<M>,
    knobs: Knobs,
    seg: Vec<u16>,
    pause: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct M {
    args: [Arg; 3],
    plan: Plan,
    trace: wire::Trace,
    ttl: u32,
    code: u8,
    headers: Vec<(Arg, Arg)>,
    /// Where among the headers the argument scheme stands.
    at: u8,
    json: bool,
}
pub struct P;

pub fn args(a: &[Arg; 3], plan: &Plan, fields: usize, json: bool) -> Parts {
    // Frames of `plan.max` bytes: steer edge lengths towards their ends.
    let max = (plan.max as usize).clamp(fields + 64, 65535);
    let fix = |l: Len| match l {
        Len::Edge { frames, delta } => {
            let room = max as i64 - 18 - if frames == 0 { fields as i64 } else { 0 };
            Len::Abs((room - 2 + delta as i64).max(0) as u32)
        }
        o => o,
    };
    let mut c = Cursor::new(65000);
    let f = |x: &Arg| Arg { len: fix(x.len), ..*x };
    let mut p = Parts { ep: f(&a[0]).text(&mut c), header: f(&a[1]).text(&mut c), body: f(&a[2]).bytes(&mut c) };
    if json {
        let w = |s: &[u8]| format!("{{\"k\":\"{}\"}}", s.iter().map(|b| (b'a' + b % 26) as char).collect::<String>());
        p.header = w(p.header.as_bytes());
        p.body = w(&p.body).into_bytes();
    }
    p
}
fn header_list(m: &M, request: bool) -> wire::Headers {
    let mut seen = std::collections::HashSet::new();
    let mut h: wire::Headers = vec![];
    let mut room = 40_000usize;
    for (k, v) in &m.headers {
        let mut c = Cursor::new(0);
        let mut k = k.text(&mut c).into_bytes();
        if k.len() % 4 == 0 {
            k = [&b"re"[..], b"se", b"fd", b"sk", b"cas", b"caf", b"rd"][k.len() / 4 % 7].to_vec();
        }
        if k != b"as" && seen.insert(k.clone()) {
            let v = v.text(&mut c).into_bytes();
            match room.checked_sub(k.len() + v.len() + 2) {
                Some(r) => room = r,
                None => break,
            }
            h.push((k, v));
        }
    }
    let at = m.at as usize % (h.len() + 1);
    h.insert(at, wire::h("as", if m.json { "json" } else { "raw" }));
    if request && seen.insert(b"cn".to_vec()) {
        h.push(wire::h("cn", "peer"));
    }
    h
}

impl Prop for P {
    type C = C;
    const ID: &'static str = "C04";
    const RULE: &'static str = "1-3 messages written frame by frame by an independent encoder: up to 6 cuts at arbitrary or argument-end positions (repeated cuts give empty chunks and empty frames), frame sizes up to 65535, up to 255 random transport headers and tracing, the byte stream cut into up to 5 TCP segments; read by a server (requests) or a client (responses) of the crate. Non-trivial: a message takes two frames or more, or has an empty argument or more than the required headers.";
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 24_000 } else { 800_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let big = t.pick(150_000, 600_000, 150_000);
        let args = prop_oneof![2 => [blob::arg(big), blob::arg(big), blob::arg(big)], 4 => [blob::small_arg(), blob::small_arg(), blob::small_arg()], 2 => [blob::small_arg(), blob::small_arg(), blob::arg(big)]];
        let htext = || (0u32..24, any::<u8>(), any::<bool>()).prop_map(|(n, salt, wide)| Arg { len: Len::Abs(if n == 23 { 255 } else { n }), salt, wide });
        let m = (args, wire::gen::plan(6), wire::gen::trace(), any::<u32>(), 0u8..=1, prop_oneof![20 => vec((htext(), htext()), 0..5), 3 => vec((htext(), htext()), 5..60), 1 => vec((htext(), htext()), 200..=253)], any::<u8>(), proptest::bool::weighted(0.25))
            .prop_map(|(args, plan, trace, ttl, code, headers, at, json)| M { args, plan, trace, ttl, code, headers, at, json });
        (any::<bool>(), vec(m, 1..=3), knobs(), vec(any::<u16>(), 0..5), proptest::bool::weighted(0.3)).prop_map(|(server, msgs, knobs, seg, pause)| C { server, msgs, knobs, seg, pause }).boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl = vec![if c.server { "requests".to_string() } else { "responses".to_string() }];
        let mut nt = false;
        for m in &c.msgs {
            for k in &m.plan.cuts {
                nt = true;
                cl.push(match k {
                    wire::Cut::At(_) => "cut anywhere".into(),
                    wire::Cut::Near { d: 0, .. } => "cut at an argument's end".into(),
                    wire::Cut::Near { .. } => "cut near an argument's end".into(),
                });
            }
            if m.args.iter().any(blob::is_edge) {
                nt = true;
                cl.push("argument ends near a frame end".into());
            }
            if m.args.iter().any(|a| a.len == Len::Abs(0)) {
                nt = true;
                cl.push("empty argument".into());
            }
            if m.plan.max == 65535 {
                cl.push("maximum frame size".into());
            }
            if !m.headers.is_empty() {
                nt = true;
                cl.push("extra headers".into());
                if m.headers.len() > 50 {
                    cl.push("over 50 headers".into());
                }
            }
        }
        if !c.seg.is_empty() {
            cl.push("segmented".into());
        }
        cl.sort();
        cl.dedup();
        (nt, cl)
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            use serde_json::{Map, Value};
            use tchannel_rs::messages::{JsonMessage, RawMessage};
            let addr = ctx.addr();
            let service = "svc";
            let text = |m: &Map<String, Value>| serde_json::to_string(m).unwrap();
            if c.server {
                let server = channel(&c.knobs, addr)?;
                let ss = sub(&server, service).await?;
                let log: Log<Parts> = Log::default();
                let mut all = vec![];
                let mut known = std::collections::HashMap::new();
                for (i, m) in c.msgs.iter().enumerate() {
                    let mut msg = Msg::request(service, "raw", Default::default());
                    msg.headers = header_list(m, true);
                    msg.ttl = m.ttl;
                    msg.tracing = m.trace;
                    let mut p = args(&m.args, &m.plan, msg.fields().len(), m.json);
                    if *known.entry(p.ep.clone()).or_insert(m.json) != m.json {
                        p.ep.push_str(if m.json { "j" } else { "r" }); // an endpoint takes one scheme
                    }
                    msg.args = p.args().to_vec();
                    let log = log.clone();
                    if !all.iter().any(|(q, _): &(Parts, _)| q.ep == p.ep) {
                        let ep = p.ep.clone();
                        if m.json {
                            register(&ss, &ep, i % 2 == 0, move |m: JsonMessage| {
                                log.push(Parts::new(m.method_name().clone(), serde_json::to_string(m.headers()).unwrap(), serde_json::to_string(m.body()).unwrap()));
                                Ok(JsonMessage::new("ok".into(), Map::new(), Map::new()))
                            }).await?;
                        } else {
                            register(&ss, &ep, i % 2 == 0, move |m: RawMessage| {
                                log.push(Parts::of(&m));
                                Ok(Parts::new("ok", "", "").msg())
                            }).await?;
                        }
                    }
                    all.push((p, msg.split(50 + i as u32, &m.plan)));
                }
                start(&server, addr).await?;
                let mut r = Raw::client(addr).await?;
                for (i, (p, frames)) in all.iter().enumerate() {
                    r.send_segments(&wire::enc_all(frames), &c.seg, c.pause).await?;
                    let e = r.next(10 * SECS).await;
                    let l = log.get();
                    if let Some(seen) = l.get(i) {
                        if seen != p {
                            return hard(format!("request {i}: sent {p:?} in {} frames, handler got {seen:?}", frames.len()));
                        }
                    }
                    match &e {
                        Ev::Frame(f) if f.ty == wire::CALL_RES && f.id == 50 + i as u32 => {}
                        o => return soft(format!("request {i} ({p:?} in {} frames) answered with {}", frames.len(), o.show())),
                    }
                    if l.len() != i + 1 {
                        return hard(format!("request {i}: handler ran {} times in total", l.len()));
                    }
                }
                Ok(())
            } else {
                let l = peer::listen(addr)?;
                let cl = client(&c.knobs)?;
                let cs = sub(&cl, service).await?;
                let jsons: Vec<bool> = c.msgs.iter().map(|m| m.json).collect();
                let caller = tokio::spawn(async move {
                    let mut out = vec![];
                    for json in jsons {
                        out.push(if json {
                            call_json(&cs, JsonMessage::new("e".into(), Map::new(), Map::new()), addr).await.map(|m| Parts::new(m.method_name().clone(), text(m.headers()), text(m.body())))
                        } else {
                            call(&cs, &Parts::new("e", "", "x"), addr).await
                        });
                    }
                    out
                });
                let mut r = peer::accept(&l).await?;
                r.welcome().await?;
                let mut want = vec![];
                for (i, m) in c.msgs.iter().enumerate() {
                    let id = match r.next(10 * SECS).await {
                        Ev::Frame(f) if f.ty == wire::CALL_REQ => f.id,
                        o => return soft(format!("call {i}: {}", o.show())),
                    };
                    let mut msg = Msg::reply(m.code, "raw", Default::default());
                    msg.headers = header_list(m, false);
                    msg.tracing = m.trace;
                    let p = args(&m.args, &m.plan, msg.fields().len(), m.json);
                    msg.args = p.args().to_vec();
                    let frames = msg.split(id, &m.plan);
                    r.send_segments(&wire::enc_all(&frames), &c.seg, c.pause).await?;
                    want.push((m.code, p, frames.len()));
                }
                let got = caller.await.map_err(|e| Bad::Hard(format!("caller: {e}")))?;
                for (i, (g, (code, p, n))) in got.into_iter().zip(want).enumerate() {
                    match (g, code) {
                        (Res::Ok(q), 0) | (Res::Message(q), 1) if q == p => {}
                        (Res::Fail(e), _) => return soft(format!("call {i}: response {p:?} in {n} frames gave error {e}")),
                        (o, _) => return hard(format!("call {i}: response {p:?} (code {code}) in {n} frames gave {o:?}")),
                    }
                }
                Ok(())
            }
        })
    }
}
