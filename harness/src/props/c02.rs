//! JSON calls are transparent end to end.
use super::prelude::*;
use serde_json::{Map, Number, Value};
use tchannel_rs::messages::JsonMessage;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    service: u8,
    calls: Vec<Call>,
    knobs: Knobs,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    method: Arg,
    req: [Obj; 2],
    rep_method: Arg,
    rep: [Obj; 2],
    plain: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Obj {
    map: Vec<(String, J)>,
    /// A string that brings the object's text to a given size.
    pad: Option<Arg>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum J {
    Null,
    Bool(bool),
    I(i64),
    U(u64),
    /// mantissa, exponent
    F(i64, i8),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
    /// Nested arrays or objects.
    Deep(u8, bool),
}
pub struct P;

fn value(j: &J) -> Value {
    match j {
        J::Null => Value::Null,
        J::Bool(b) => Value::Bool(*b),
        J::I(i) => Value::from(*i),
        J::U(u) => Value::from(*u),
        J::F(m, e) => decimal(format!("{m}e{e}").parse::<f64>().unwrap()),
        J::S(s) => Value::String(s.clone()),
        J::A(v) => Value::Array(v.iter().map(value).collect()),
        J::O(v) => Value::Object(v.iter().map(|(k, j)| (k.clone(), value(j))).collect()),
        J::Deep(n, obj) => {
            let mut v = Value::Null;
            for _ in 0..*n {
                v = if *obj { Value::Object([(String::from("d"), v)].into_iter().collect()) } else { Value::Array(vec![v]) };
            }
            v
        }
    }
}
/// The JSON library reads some printed decimals as a neighbouring one; take one it reads as itself.
fn decimal(mut f: f64) -> Value {
    for _ in 0..8 {
        let Some(n) = Number::from_f64(f) else { return Value::Null };
        let again = serde_json::from_str::<Value>(&serde_json::to_string(&n).unwrap()).ok().and_then(|v| v.as_f64()).unwrap_or(0.5);
        if again.to_bits() == f.to_bits() {
            return Value::Number(n);
        }
        f = again;
    }
    Value::from(0.5)
}
fn object(o: &Obj, c: &mut Cursor) -> Map<String, Value> {
    let mut m: Map<String, Value> = o.map.iter().map(|(k, j)| (k.clone(), value(j))).collect();
    let base = serde_json::to_string(&m).unwrap().len();
    if let Some(a) = &o.pad {
        m.remove("pad");
        let base = serde_json::to_string(&m).unwrap().len();
        let extra = if m.is_empty() { 8 } else { 9 };
        let n = c.resolve(a.len);
        m.insert("pad".into(), Value::String(pad(a.salt, n.saturating_sub(base + extra))));
    } else {
        c.skip(base);
    }
    m
}
/// Text that JSON does not escape.
fn pad(salt: u8, n: usize) -> String {
    blob::text(salt, n, false).replace(['"', '\\'], "_")
}
fn key() -> impl Strategy<Value = String> {
    prop_oneof![4 => proptest::string::string_regex("[a-z]{0,6}").unwrap(), 2 => any::<String>(), 1 => proptest::string::string_regex("[\\x00-\\x7f]{1,8}").unwrap(), 1 => proptest::string::string_regex("[\"\\\\/\u{2028}\u{e000}\u{10ffff}]{1,8}").unwrap()]
}
fn json() -> BoxedStrategy<J> {
    let leaf = prop_oneof![
        1 => Just(J::Null),
        1 => any::<bool>().prop_map(J::Bool),
        2 => prop_oneof![any::<i64>(), Just(i64::MIN), Just(i64::MAX), -3i64..3].prop_map(J::I),
        2 => prop_oneof![any::<u64>(), Just(u64::MAX), Just(1u64 << 63), Just((1u64 << 53) + 1)].prop_map(J::U),
        2 => (-999_999_999_999_999i64..=999_999_999_999_999, -15i8..=6).prop_map(|(m, e)| J::F(m, e)),
        3 => key().prop_map(J::S),
        1 => (1u8..100, any::<bool>()).prop_map(|(n, o)| J::Deep(n, o)),
    ];
    leaf.prop_recursive(4, 24, 5, |inner| prop_oneof![vec(inner.clone(), 0..5).prop_map(J::A), vec((key(), inner), 0..5).prop_map(J::O)]).boxed()
}
fn obj(big: u32) -> BoxedStrategy<Obj> {
    (vec((key(), json()), 0..4), proptest::option::weighted(0.4, blob::arg(big))).prop_map(|(map, pad)| Obj { map, pad }).boxed()
}
type Three = (String, Map<String, Value>, Map<String, Value>);
fn of(m: &JsonMessage) -> Three {
    (m.method_name().clone(), m.headers().clone(), m.body().clone())
}
fn show(t: &Three) -> String {
    let s = format!("{t:?}");
    if s.len() > 400 { format!("{}.. ({} bytes)", s.chars().take(400).collect::<String>(), s.len()) } else { s }
}

impl Prop for P {
    type C = C;
    const ID: &'static str = "C02";
    const RULE: &'static str = "1-3 sequential JSON calls between a client and a server of the crate over loopback; objects drawn recursively (any Unicode keys and strings, full-range 64-bit integers, decimals of up to 15 digits, null, nesting up to 100), padded to sizes near frame boundaries. Non-trivial: an object is nested, or padded, or holds a number beyond 2^53 or a non-ASCII or escaped character.";
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 16_000 } else { 500_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let big = t.pick(220_000, 900_000, 220_000);
        let method = || prop_oneof![4 => blob::small_arg(), 1 => blob::arg(big)];
        let call = (method(), [obj(big), obj(big)], method(), [obj(big), obj(big)], any::<bool>()).prop_map(|(method, req, rep_method, rep, plain)| Call { method, req, rep_method, rep, plain });
        (0u8..=255, vec(call, 1..=3), knobs()).prop_map(|(service, calls, knobs)| C { service, calls, knobs }).boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl = std::collections::BTreeSet::new();
        fn walk(j: &J, cl: &mut std::collections::BTreeSet<String>) {
            let odd = |s: &String| s.bytes().any(|b| b >= 0x80 || b < 0x20 || b == b'"' || b == b'\\');
            match j {
                J::I(i) if i.unsigned_abs() > 1 << 53 => { cl.insert("integer beyond 2^53".into()); }
                J::U(i) if *i > i64::MAX as u64 => { cl.insert("integer beyond i64".into()); }
                J::U(i) if *i > 1 << 53 => { cl.insert("integer beyond 2^53".into()); }
                J::F(..) => { cl.insert("decimal".into()); }
                J::S(s) if odd(s) => { cl.insert("non-ASCII or escaped string".into()); }
                J::Null => { cl.insert("null".into()); }
                J::A(v) => { cl.insert("array".into()); v.iter().for_each(|j| walk(j, cl)); }
                J::O(v) => { cl.insert("nested object".into()); v.iter().for_each(|(k, j)| { if odd(k) { cl.insert("non-ASCII or escaped key".into()); } walk(j, cl) }); }
                J::Deep(..) => { cl.insert("deep".into()); }
                _ => {}
            }
        }
        for x in &c.calls {
            for o in x.req.iter().chain(x.rep.iter()) {
                match &o.pad {
                    Some(a) if blob::is_edge(a) => { cl.insert("padded to a frame end".into()); }
                    Some(_) => { cl.insert("padded".into()); }
                    None if o.map.is_empty() => { cl.insert("empty object".into()); }
                    _ => {}
                }
                o.map.iter().for_each(|(_, j)| walk(j, &mut cl));
            }
        }
        let n = cl.iter().filter(|s| !matches!(s.as_str(), "empty object" | "null" | "decimal")).count();
        (n > 0, cl.into_iter().collect())
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            let addr = ctx.addr();
            let service = super::c01::service_name(c.service);
            let s = service.len();
            let server = channel(&c.knobs, addr)?;
            let ss = sub(&server, &service).await?;
            let log: Log<Three> = Log::default();
            let build = |m: &Arg, o: &[Obj; 2], room: i64| -> Three {
                let mut cur = Cursor::new(room);
                let m = m.text(&mut cur);
                let a = object(&o[0], &mut cur);
                (m, a, object(&o[1], &mut cur))
            };
            let calls: Vec<(Three, Three)> = c.calls.iter().map(|x| (build(&x.method, &x.req, blob::request_room(s, 4)), build(&x.rep_method, &x.rep, blob::response_room(s, 4)))).collect();
            let replies = Arc::new(calls.iter().map(|c| c.1.clone()).collect::<Vec<_>>());
            let mut known = std::collections::HashSet::new();
            for (i, x) in calls.iter().enumerate() {
                if known.insert(x.0 .0.clone()) {
                    let (log, replies) = (log.clone(), replies.clone());
                    register(&ss, &x.0 .0, c.calls[i].plain, move |m: JsonMessage| {
                        let i = log.len();
                        log.push(of(&m));
                        let r = replies[i.min(replies.len() - 1)].clone();
                        Ok(JsonMessage::new(r.0, r.1, r.2))
                    })
                    .await?;
                }
            }
            start(&server, addr).await?;
            let cl = client(&c.knobs)?;
            let cs = sub(&cl, &service).await?;
            for (i, (req, rep)) in calls.iter().enumerate() {
                let got = call_json(&cs, JsonMessage::new(req.0.clone(), req.1.clone(), req.2.clone()), addr).await.map(|m| of(&m));
                let l = log.get();
                if let Some(seen) = l.get(i) {
                    if seen != req {
                        return hard(format!("call {i}: sent {}, handler got {}", show(req), show(seen)));
                    }
                }
                match got {
                    Res::Ok(t) if t == *rep => {}
                    Res::Ok(t) => return hard(format!("call {i}: handler replied {}, caller got {}", show(rep), show(&t))),
                    Res::Message(t) => return hard(format!("call {i}: reply arrived as error message {}", show(&t))),
                    Res::Fail(e) => return soft(format!("call {i} failed: {e}")),
                }
                if l.len() != i + 1 {
                    return hard(format!("call {i}: handler ran {} times in total", l.len()));
                }
            }
            Ok(())
        })
    }
}
