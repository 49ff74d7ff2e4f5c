//! Raw calls are transparent end to end.
use super::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    service: u8,
    calls: Vec<Call>,
    knobs: Knobs,
    multi: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    req: [Arg; 3],
    rep: [Arg; 3],
    plain: bool,
}
pub struct P;

pub fn parts(a: &[Arg; 3], room: i64) -> Parts {
    let mut c = Cursor::new(room);
    Parts { ep: a[0].text(&mut c), header: a[1].text(&mut c), body: a[2].bytes(&mut c) }
}
pub fn service_name(n: u8) -> String {
    crate::blob::text(n, n as usize, n % 3 == 0)
}

impl Prop for P {
    type C = C;
    const ID: &'static str = "C01";
    const RULE: &'static str = "1-3 sequential raw calls between a client and a server of the crate over loopback; lengths of endpoint, header and body of request and reply drawn from empty, small, large and 'ends within 8 bytes of a frame boundary'. Non-trivial: some argument is placed at a frame boundary, spans frames or is empty.";
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { 22_000 } else { 600_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<C> {
        let big = t.pick(220_000, 900_000, 220_000);
        let arg3 = move || {
            prop_oneof![
                3 => [blob::arg(big), blob::arg(big), blob::arg(big)],
                3 => [blob::small_arg(), blob::small_arg(), blob::arg(big)],
                1 => [blob::small_arg(), blob::arg(big), blob::small_arg()],
                1 => [blob::small_arg(), blob::small_arg(), blob::small_arg()],
            ]
        };
        let call = (arg3(), arg3(), any::<bool>()).prop_map(|(req, rep, plain)| Call { req, rep, plain });
        (prop_oneof![3 => 0u8..20, 1 => any::<u8>(), 1 => Just(255u8)], vec(call, 1..=3), knobs(), proptest::bool::weighted(0.15))
            .prop_map(|(service, calls, knobs, multi)| C { service, calls, knobs, multi })
            .boxed()
    }
    fn describe(&self, c: &C) -> (bool, Vec<String>) {
        let mut cl = vec![];
        for x in &c.calls {
            for (w, a) in [("request", &x.req), ("reply", &x.rep)] {
                for (i, a) in a.iter().enumerate() {
                    match a.len {
                        Len::Abs(0) => cl.push(format!("{w} arg{} empty", i + 1)),
                        Len::Edge { .. } => cl.push(format!("{w} arg{} near a frame end", i + 1)),
                        Len::Abs(n) if n > 65000 => cl.push(format!("{w} arg{} over a frame", i + 1)),
                        _ => {}
                    }
                }
            }
        }
        cl.sort();
        cl.dedup();
        (!cl.is_empty(), cl)
    }
    fn rt(&self, c: &C) -> Rt {
        if c.multi { Rt::Multi(2) } else { Rt::Current }
    }
    fn run(&self, c: C, ctx: Ctx) -> Fut {
        Box::pin(async move {
            let addr = ctx.addr();
            let service = service_name(c.service);
            let server = channel(&c.knobs, addr)?;
            let ss = sub(&server, &service).await?;
            let log: Log<Parts> = Log::default();
            let s = service.len();
            let calls: Vec<(Parts, Parts)> = c.calls.iter().map(|x| (parts(&x.req, blob::request_room(s, 3)), parts(&x.rep, blob::response_room(s, 3)))).collect();
            let replies = Arc::new(calls.iter().map(|c| c.1.clone()).collect::<Vec<_>>());
            let mut known = std::collections::HashSet::new();
            for (i, x) in calls.iter().enumerate() {
                if known.insert(x.0.ep.clone()) {
                    let (log, replies) = (log.clone(), replies.clone());
                    let ep = x.0.ep.clone();
                    register(&ss, &ep, c.calls[i].plain, move |m| {
                        let i = log.len();
                        log.push(Parts::of(&m));
                        Ok(replies[i.min(replies.len() - 1)].msg())
                    })
                    .await?;
                }
            }
            start(&server, addr).await?;
            let cl = client(&c.knobs)?;
            let cs = sub(&cl, &service).await?;
            for (i, (req, rep)) in calls.iter().enumerate() {
                let got = call(&cs, req, addr).await;
                let l = log.get();
                if let Some(seen) = l.get(i) {
                    if seen != req {
                        return hard(format!("call {i}: sent {req:?}, handler got {seen:?}"));
                    }
                }
                expect_ok(got, rep, &format!("call {i}"))?;
                if l.len() != i + 1 {
                    return hard(format!("call {i}: handler ran {} times in total", l.len()));
                }
            }
            Ok(())
        })
    }
}
