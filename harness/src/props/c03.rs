//! Messages put on the wire are well-formed TChannel frames.
use super::prelude::*;
use serde_json::{Map, Value};
use tchannel_rs::handler::HandlerResult;
use tchannel_rs::messages::{JsonMessage, RawMessage};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    service: u8,
    calls: Vec<Call>,
    knobs: Knobs,
    /// The writer: a client (requests) or a server (responses).
    server: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    args: [Arg; 3],
    /// JSON instead of raw: the second and third argument are objects with one string of that length.
    json: bool,
    error: bool,
}
pub struct P;

fn objects(s: &str) -> Map<String, Value> {
    [(String::from("k"), Value::String(s.to_string()))].into_iter().collect()
}
/// (message parts as text, arguments as they must appear on the wire)
fn build(x: &Call, room: i64) -> ([String; 2], Vec<u8>, Vec<Vec<u8>>) {
    let mut c = Cursor::new(room);
    if x.json {
        let ep = x.args[0].text(&mut c);
        let mut f = |a: &Arg| {
            let n = c.resolve(a.len).saturating_sub(8);
            blob::text(a.salt, n, false).replace(['"', '\\'], "_")
        };
        let (h, b) = (f(&x.args[1]), f(&x.args[2]));
        let w = |s: &String| format!("{{\"k\":\"{s}\"}}").into_bytes();
        let args = vec![ep.clone().into_bytes(), w(&h), w(&b)];
        ([ep, h], b.into_bytes(), args)
    } else {
        let p = super::c01::parts(&x.args, room);
        let args = p.args().to_vec();
        ([p.ep, p.header], p.body, args)
    }
}
fn json_msg(ep: &str, h: &str, b: &[u8]) -> JsonMessage {
    JsonMessage::new(ep.into(), objects(h), objects(std::str::from_utf8(b).unwrap()))
}

/// Reads one message of our writers, strictly.
async fn read_message(r: &mut Raw, what: &str, ty: (u8, u8)) -> R<(u32, Msg, usize)> {
    let mut asm = Asm::default();
    let mut id = None;
    loop {
        match r.next(10 * SECS).await {
            Ev::Frame(f) => {
                let want = if asm.frames == 0 { ty.0 } else { ty.1 };
                if f.ty != want {
                    return hard(format!("{what}: frame {} is of type 0x{:02x}, not 0x{want:02x}", asm.frames, f.ty));
                }
                if *id.get_or_insert(f.id) != f.id {
                    return hard(format!("{what}: frame {} has id {} instead of {}", asm.frames, f.id, id.unwrap()));
                }
                if let Err(e) = asm.feed(&f, true) {
                    return hard(format!("{what}: frame {} ({}): {e}", asm.frames, f.show()));
                }
                if asm.done {
                    return Ok((id.unwrap(), asm.msg.unwrap(), asm.frames));
                }
            }
            Ev::Garbled(e) => return hard(format!("{what}: stream garbled: {e}")),
            Ev::Eof { leftover } if leftover > 0 => return hard(format!("{what}: stream ends inside a frame")),
            e => return soft(format!("{what}: {} after {} frames", e.show(), asm.frames)),
        }
    }
}
fn check(m: &Msg, want: &[Vec<u8>], scheme: &str, what: &str) -> R {
    for (i, w) in want.iter().enumerate() {
        if m.args[i] != *w {
            return hard(format!("{what}: argument {} is {} bytes on the wire, {} bytes in the message, or differs", i + 1, m.args[i].len(), w.len()));
        }
    }
    let schemes: Vec<_> = m.headers.iter().filter(|(k, _)| k == b"as").collect();
    if schemes.len() != 1 || schemes[0].1 != scheme.as_bytes() {
        return hard(format!("{what}: argument scheme headers {schemes:?}, expected {scheme}"));
    }
    Ok(())
}

impl Prop for P {
    type C = C;
    const ID: &'static str = "C03";
    const RULE: &'static str = "1-3 messages written by a client (captured by a scripted server) or by a server (answering a raw client), raw or JSON, argument lengths as in C01; every byte is read back by an independent strict frame reader. Non-trivial: an argument is placed at a frame boundary, spans frames or is empty.";
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 24_000 } else { 800_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let big = t.pick(220_000, 900_000, 220_000);
        let args = prop_oneof![3 => [blob::arg(big), blob::arg(big), blob::arg(big)], 2 => [blob::small_arg(), blob::small_arg(), blob::arg(big)], 1 => [blob::small_arg(), blob::arg(big), blob::small_arg()], 1 => [blob::small_arg(), blob::small_arg(), blob::small_arg()]];
        let call = (args, proptest::bool::weighted(0.3), any::<bool>()).prop_map(|(args, json, error)| Call { args, json, error });
        (prop_oneof![3 => 0u8..20, 1 => any::<u8>(), 1 => Just(255u8)], vec(call, 1..=3), knobs(), any::<bool>()).prop_map(|(service, calls, knobs, server)| C { service, calls, knobs, server }).boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl = vec![];
        for x in &c.calls {
            for (i, a) in x.args.iter().enumerate() {
                match a.len {
                    Len::Abs(0) => cl.push(format!("arg{} empty", i + 1)),
                    Len::Edge { .. } => cl.push(format!("arg{} near a frame end", i + 1)),
                    Len::Abs(n) if n > 65000 => cl.push(format!("arg{} over a frame", i + 1)),
                    _ => {}
                }
            }
        }
        let nt = !cl.is_empty();
        cl.push(if c.server { "responses".into() } else { "requests".into() });
        if c.calls.iter().any(|x| x.json) {
            cl.push("json".into());
        }
        cl.sort();
        cl.dedup();
        (nt, cl)
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            let addr = ctx.addr();
            let service = super::c01::service_name(c.service);
            let s = service.len();
            if c.server {
                let built: Vec<_> = c.calls.iter().map(|x| build(x, blob::response_room(s, if x.json { 4 } else { 3 }))).collect();
                let server = channel(&c.knobs, addr)?;
                let ss = sub(&server, &service).await?;
                for (i, (x, b)) in c.calls.iter().zip(&built).enumerate() {
                    let (t, body, error) = (b.0.clone(), b.1.clone(), x.error);
                    fn out<M: tchannel_rs::messages::Message>(m: M, error: bool) -> HandlerResult<M> {
                        if error { Err(tchannel_rs::errors::HandlerError::MessageError(m)) } else { Ok(m) }
                    }
                    if x.json {
                        register(&ss, &format!("e{i}"), i % 2 == 0, move |_: JsonMessage| out(json_msg(&t[0], &t[1], &body), error)).await?;
                    } else {
                        register(&ss, &format!("e{i}"), i % 2 == 0, move |_: RawMessage| out(RawMessage::new(t[0].clone(), t[1].clone(), body.clone().into()), error)).await?;
                    }
                }
                start(&server, addr).await?;
                let mut r = Raw::client(addr).await?;
                for (i, (x, b)) in c.calls.iter().zip(&built).enumerate() {
                    let what = format!("response {i}");
                    let scheme = if x.json { "json" } else { "raw" };
                    let empty = if x.json { b"{}".to_vec() } else { vec![] };
                    let id = 1000 + i as u32 * 77;
                    for f in Msg::request(&service, scheme, [format!("e{i}").into_bytes(), empty.clone(), empty]).whole(id) {
                        r.send(&f).await?;
                    }
                    let (got, m, _) = read_message(&mut r, &what, (wire::CALL_RES, wire::RES_CONT)).await?;
                    if got != id {
                        return hard(format!("{what}: id {got} instead of {id}"));
                    }
                    if m.code != x.error as u8 {
                        return hard(format!("{what}: response code {}", m.code));
                    }
                    check(&m, &b.2, scheme, &what)?;
                }
                match r.poll() {
                    None => Ok(()),
                    Some(e) => hard(format!("{} after the last response", e.show())),
                }
            } else {
                let built: Vec<_> = c.calls.iter().map(|x| build(x, blob::request_room(s, if x.json { 4 } else { 3 }))).collect();
                let l = peer::listen(addr)?;
                let cl = client(&c.knobs)?;
                let cs = sub(&cl, &service).await?;
                let calls: Vec<_> = c.calls.iter().zip(&built).map(|(x, b)| (x.json, b.0.clone(), b.1.clone())).collect();
                let caller = tokio::spawn(async move {
                    for (json, t, body) in calls {
                        let failed = if json {
                            match call_json(&cs, json_msg(&t[0], &t[1], &body), addr).await { Res::Ok(_) => None, o => Some(format!("{o:?}")) }
                        } else {
                            match call(&cs, &Parts::new(t[0].clone(), t[1].clone(), body), addr).await { Res::Ok(_) => None, o => Some(format!("{o:?}")) }
                        };
                        if let Some(e) = failed {
                            return Some(e);
                        }
                    }
                    None
                });
                let mut r = peer::accept(&l).await?;
                r.welcome().await?;
                let mut ids = std::collections::HashSet::new();
                for (i, (x, b)) in c.calls.iter().zip(&built).enumerate() {
                    let what = format!("request {i}");
                    let scheme = if x.json { "json" } else { "raw" };
                    let (id, m, _) = read_message(&mut r, &what, (wire::CALL_REQ, wire::REQ_CONT)).await?;
                    if !ids.insert(id) {
                        return hard(format!("{what}: id {id} used before"));
                    }
                    if m.service != service.as_bytes() {
                        return hard(format!("{what}: service name differs"));
                    }
                    // Without them, other implementations take no request.
                    if m.ttl == 0 || !m.headers.iter().any(|(k, _)| k == b"cn") {
                        return hard(format!("{what}: time to live {} ms, headers {:?}", m.ttl, m.headers));
                    }
                    check(&m, &b.2, scheme, &what)?;
                    let empty = if x.json { b"{}".to_vec() } else { vec![] };
                    for f in Msg::reply(0, scheme, [vec![], empty.clone(), empty]).whole(id) {
                        r.send(&f).await?;
                    }
                }
                if let Ok(Some(e)) = caller.await {
                    return soft(format!("call failed: {e}"));
                }
                match r.poll() {
                    None => Ok(()),
                    Some(e) => hard(format!("{} after the last request", e.show())),
                }
            }
        })
    }
}
