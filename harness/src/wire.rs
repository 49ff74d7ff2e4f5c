//! TChannel frames as the protocol document describes them, written independently of the crate under test.
use serde::{Deserialize, Serialize};

pub const INIT_REQ: u8 = 1;
pub const INIT_RES: u8 = 2;
pub const CALL_REQ: u8 = 3;
pub const CALL_RES: u8 = 4;
pub const REQ_CONT: u8 = 0x13;
pub const RES_CONT: u8 = 0x14;
pub const CANCEL: u8 = 0xc0;
pub const CLAIM: u8 = 0xc1;
pub const PING_REQ: u8 = 0xd0;
pub const PING_RES: u8 = 0xd1;
pub const ERROR: u8 = 0xff;
pub const TYPES: [u8; 11] = [INIT_REQ, INIT_RES, CALL_REQ, CALL_RES, REQ_CONT, RES_CONT, CANCEL, CLAIM, PING_REQ, PING_RES, ERROR];
pub const MAX: usize = 65535;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Frame {
    pub ty: u8,
    pub id: u32,
    pub body: Vec<u8>,
}
impl Frame {
    pub fn new(ty: u8, id: u32, body: Vec<u8>) -> Frame {
        Frame { ty, id, body }
    }
    pub fn enc(&self) -> Vec<u8> {
        let n = self.body.len() + 16;
        assert!(n <= MAX, "harness frame too long");
        let mut v = Vec::with_capacity(n);
        v.extend((n as u16).to_be_bytes());
        v.push(self.ty);
        v.push(0);
        v.extend(self.id.to_be_bytes());
        v.extend([0; 8]);
        v.extend(&self.body);
        v
    }
    pub fn show(&self) -> String {
        format!("type 0x{:02x} id {} body {} bytes", self.ty, self.id, self.body.len())
    }
}
pub fn enc_all(f: &[Frame]) -> Vec<u8> {
    f.iter().flat_map(|f| f.enc()).collect()
}

/// Takes one frame off the front of `buf`. None: incomplete. Err: impossible length.
pub fn take(buf: &mut Vec<u8>) -> Result<Option<Frame>, String> {
    if buf.len() < 2 {
        return Ok(None);
    }
    let n = u16::from_be_bytes([buf[0], buf[1]]) as usize;
    if n < 16 {
        return Err(format!("declared frame length {n} below the 16 byte header"));
    }
    if buf.len() < n {
        return Ok(None);
    }
    let rest = buf.split_off(n);
    let f = std::mem::replace(buf, rest);
    Ok(Some(Frame { ty: f[2], id: u32::from_be_bytes(f[4..8].try_into().unwrap()), body: f[16..].to_vec() }))
}

pub fn init(ty: u8, id: u32, version: u16, headers: &[(String, String)]) -> Frame {
    let mut b = version.to_be_bytes().to_vec();
    b.extend((headers.len() as u16).to_be_bytes());
    for (k, v) in headers {
        for s in [k, v] {
            b.extend((s.len() as u16).to_be_bytes());
            b.extend(s.as_bytes());
        }
    }
    Frame::new(ty, id, b)
}
pub fn ping(ty: u8, id: u32) -> Frame {
    Frame::new(ty, id, vec![])
}
pub fn error(id: u32, code: u8, msg: &[u8]) -> Frame {
    let mut b = vec![code];
    b.extend([0u8; 25]);
    b.extend((msg.len() as u16).to_be_bytes());
    b.extend(msg);
    Frame::new(ERROR, id, b)
}

pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err(format!("{} bytes left, {n} needed", self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Result<u16, String> {
        Ok(u16::from_be_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
}

pub fn parse_init(f: &Frame) -> Result<(u16, Vec<(Vec<u8>, Vec<u8>)>), String> {
    let mut r = Rd(&f.body);
    let v = r.u16()?;
    let n = r.u16()?;
    let mut h = vec![];
    for _ in 0..n {
        let k = r.u16()? as usize;
        let k = r.take(k)?.to_vec();
        let l = r.u16()? as usize;
        h.push((k, r.take(l)?.to_vec()));
    }
    if !r.0.is_empty() {
        return Err("bytes after the init headers".into());
    }
    Ok((v, h))
}

pub type Headers = Vec<(Vec<u8>, Vec<u8>)>;

/// A call request or response: everything but its framing.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Msg {
    pub response: bool,
    pub ttl: u32,
    pub code: u8,
    pub tracing: Trace,
    pub service: Vec<u8>,
    pub headers: Headers,
    pub args: Vec<Vec<u8>>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct Trace {
    pub span: u64,
    pub parent: u64,
    pub trace: u64,
    pub flags: u8,
}
pub fn h(k: &str, v: &str) -> (Vec<u8>, Vec<u8>) {
    (k.as_bytes().to_vec(), v.as_bytes().to_vec())
}
impl Msg {
    pub fn request(service: &str, scheme: &str, args: [Vec<u8>; 3]) -> Msg {
        Msg { ttl: 10_000, service: service.as_bytes().to_vec(), headers: vec![h("as", scheme), h("cn", "harness")], args: args.to_vec(), ..Msg::default() }
    }
    pub fn reply(code: u8, scheme: &str, args: [Vec<u8>; 3]) -> Msg {
        Msg { response: true, code, headers: vec![h("as", scheme)], args: args.to_vec(), ..Msg::default() }
    }
    pub fn fields(&self) -> Vec<u8> {
        let mut b = vec![];
        if self.response {
            b.push(self.code);
        } else {
            b.extend(self.ttl.to_be_bytes());
        }
        b.extend(self.tracing.span.to_be_bytes());
        b.extend(self.tracing.parent.to_be_bytes());
        b.extend(self.tracing.trace.to_be_bytes());
        b.push(self.tracing.flags);
        if !self.response {
            b.push(self.service.len() as u8);
            b.extend(&self.service);
        }
        b.push(self.headers.len() as u8);
        for (k, v) in &self.headers {
            b.push(k.len() as u8);
            b.extend(k);
            b.push(v.len() as u8);
            b.extend(v);
        }
        b
    }
    pub fn types(&self) -> (u8, u8) {
        if self.response { (CALL_RES, RES_CONT) } else { (CALL_REQ, REQ_CONT) }
    }
    /// The frames for chunk lists already decided.
    pub fn frames(&self, id: u32, chunks: &[Vec<Vec<u8>>]) -> Vec<Frame> {
        let (first, cont) = self.types();
        chunks
            .iter()
            .enumerate()
            .map(|(i, cs)| {
                let mut b = vec![(i + 1 < chunks.len()) as u8];
                if i == 0 {
                    b.extend(self.fields());
                }
                b.push(0); // checksum type: none
                for c in cs {
                    b.extend((c.len() as u16).to_be_bytes());
                    b.extend(c);
                }
                Frame::new(if i == 0 { first } else { cont }, id, b)
            })
            .collect()
    }
    /// Splits the message by `plan`.
    pub fn split(&self, id: u32, plan: &Plan) -> Vec<Frame> {
        self.frames(id, &plan.chunks(&self.args, self.fields().len()))
    }
    pub fn whole(&self, id: u32) -> Vec<Frame> {
        self.split(id, &Plan::default())
    }
}

/// Where to cut a message into frames. The message is the token sequence arg1 | arg2 | arg3 (bytes and two
/// separators); any cut between tokens, repeated or not, is a legal framing: what follows a cut continues the
/// argument being written, possibly by nothing.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Plan {
    pub cuts: Vec<Cut>,
    /// Largest frame used, header included (at most 65535).
    pub max: u32,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Cut {
    /// At this 65536th of the message.
    At(u16),
    /// `d` tokens from the end of argument `arg`.
    Near { arg: u8, d: i8 },
}
impl Default for Plan {
    fn default() -> Plan {
        Plan { cuts: vec![], max: MAX as u32 }
    }
}
impl Plan {
    pub fn chunks(&self, args: &[Vec<u8>], fields: usize) -> Vec<Vec<Vec<u8>>> {
        let mut ends = vec![];
        let mut total = 0usize;
        for a in args {
            total += a.len();
            ends.push(total);
            total += 1; // separator
        }
        total = total.saturating_sub(1);
        let mut cuts: Vec<usize> = self
            .cuts
            .iter()
            .map(|c| match c {
                Cut::At(f) => total * (*f as usize) / 65535,
                Cut::Near { arg, d } => (ends[*arg as usize % ends.len()] as i64 + *d as i64).clamp(0, total as i64) as usize,
            })
            .collect();
        cuts.sort();
        // Walk the tokens, cutting where asked or where the frame is full.
        let max = (self.max as usize).clamp(fields + 64, MAX);
        let mut out: Vec<Vec<Vec<u8>>> = vec![];
        let mut cur: Vec<Vec<u8>> = vec![vec![]];
        let mut room = (max - 16 - 1 - fields - 1) as i64 - 2;
        let mut pos = 0usize;
        let mut ci = 0;
        let cont_room = (max - 16 - 1 - 1) as i64 - 2;
        let flush = |out: &mut Vec<Vec<Vec<u8>>>, cur: &mut Vec<Vec<u8>>, room: &mut i64| {
            out.push(std::mem::replace(cur, vec![vec![]]));
            *room = cont_room;
        };
        for (ai, a) in args.iter().enumerate() {
            if ai > 0 {
                while ci < cuts.len() && cuts[ci] == pos {
                    flush(&mut out, &mut cur, &mut room);
                    ci += 1;
                }
                if room < 2 {
                    flush(&mut out, &mut cur, &mut room);
                }
                cur.push(vec![]);
                room -= 2;
                pos += 1;
            }
            let mut i = 0;
            while i < a.len() {
                while ci < cuts.len() && cuts[ci] == pos {
                    flush(&mut out, &mut cur, &mut room);
                    ci += 1;
                }
                if room < 1 {
                    flush(&mut out, &mut cur, &mut room);
                }
                let next_cut = cuts.get(ci).map_or(usize::MAX, |c| c - pos);
                let n = (a.len() - i).min(room as usize).min(next_cut);
                cur.last_mut().unwrap().extend(&a[i..i + n]);
                i += n;
                pos += n;
                room -= n as i64;
            }
        }
        while ci < cuts.len() {
            flush(&mut out, &mut cur, &mut room);
            ci += 1;
        }
        out.push(cur);
        out
    }
}

/// One call or continuation frame, read strictly by the layout in the protocol document.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CallFrame {
    pub flags: u8,
    /// Present on the first frame; its `args` are empty.
    pub head: Option<Msg>,
    pub csum: u8,
    pub chunks: Vec<Vec<u8>>,
}
pub fn parse_call(f: &Frame) -> Result<CallFrame, String> {
    let mut r = Rd(&f.body);
    let flags = r.u8()?;
    let head = match f.ty {
        CALL_REQ | CALL_RES => {
            let mut m = Msg { response: f.ty == CALL_RES, ..Msg::default() };
            if m.response {
                m.code = r.u8()?;
            } else {
                m.ttl = r.u32()?;
            }
            let mut u64_ = || -> Result<u64, String> { Ok(u64::from_be_bytes(r.take(8)?.try_into().unwrap())) };
            m.tracing = Trace { span: u64_()?, parent: u64_()?, trace: u64_()?, flags: 0 };
            m.tracing.flags = r.u8()?;
            if !m.response {
                let n = r.u8()? as usize;
                m.service = r.take(n)?.to_vec();
            }
            for _ in 0..r.u8()? {
                let n = r.u8()? as usize;
                let k = r.take(n)?.to_vec();
                let n = r.u8()? as usize;
                m.headers.push((k, r.take(n)?.to_vec()));
            }
            Some(m)
        }
        REQ_CONT | RES_CONT => None,
        t => return Err(format!("type 0x{t:02x} is no call frame")),
    };
    let csum = r.u8()?;
    if csum > 3 {
        return Err(format!("checksum type {csum}"));
    }
    if csum != 0 {
        r.u32()?;
    }
    let mut chunks = vec![];
    while !r.0.is_empty() {
        if chunks.len() == 3 {
            return Err("more than three chunks".into());
        }
        let n = r.u16()? as usize;
        chunks.push(r.take(n)?.to_vec());
    }
    if chunks.is_empty() {
        return Err("no chunks".into());
    }
    Ok(CallFrame { flags, head, csum, chunks })
}

/// Puts the frames of one message together by the protocol's rule.
#[derive(Clone, Debug, Default)]
pub struct Asm {
    pub msg: Option<Msg>,
    pub frames: usize,
    pub done: bool,
}
impl Asm {
    /// Feeds the next frame with this message's id. `strict`: also what only our own writers must keep to.
    pub fn feed(&mut self, f: &Frame, strict: bool) -> Result<(), String> {
        if self.done {
            return Err(format!("frame after the last one of its message: {}", f.show()));
        }
        let c = parse_call(f)?;
        if c.csum != 0 && strict {
            return Err(format!("checksum type {}", c.csum));
        }
        if strict && c.flags & !1 != 0 {
            return Err(format!("flags 0x{:02x}", c.flags));
        }
        match (c.head, &mut self.msg) {
            (Some(mut m), None) => {
                m.args = c.chunks;
                self.msg = Some(m);
            }
            (None, Some(m)) => {
                if (f.ty == RES_CONT) != m.response {
                    return Err("continuation frame of the other kind".into());
                }
                let mut it = c.chunks.into_iter();
                m.args.last_mut().unwrap().extend(it.next().unwrap());
                m.args.extend(it);
            }
            (Some(_), Some(_)) => return Err("second call frame for one message".into()),
            (None, None) => return Err("continuation frame without its call frame".into()),
        }
        self.frames += 1;
        if self.msg.as_ref().unwrap().args.len() > 3 {
            return Err(format!("message with {} arguments", self.msg.as_ref().unwrap().args.len()));
        }
        if c.flags & 1 == 0 {
            self.done = true;
            let n = self.msg.as_ref().unwrap().args.len();
            if strict && n != 3 {
                return Err(format!("message with {n} arguments"));
            }
        }
        Ok(())
    }
}

/// Merges frame sequences, keeping each in order; `picks` chooses whose frame comes next.
pub fn interleave(seqs: Vec<Vec<Frame>>, picks: &[u8]) -> Vec<(usize, Frame)> {
    let mut qs: Vec<(usize, std::collections::VecDeque<Frame>)> = seqs.into_iter().map(|s| s.into()).enumerate().filter(|(_, q): &(usize, std::collections::VecDeque<Frame>)| !q.is_empty()).collect();
    let mut out = vec![];
    let mut t = 0;
    while !qs.is_empty() {
        let p = if picks.is_empty() { 0 } else { picks[t % picks.len()] as usize };
        t += 1;
        let k = p % qs.len();
        let i = qs[k].0;
        out.push((i, qs[k].1.pop_front().unwrap()));
        if qs[k].1.is_empty() {
            qs.remove(k);
        }
    }
    out
}

pub mod gen {
    use super::*;
    use proptest::collection::vec;
    use proptest::prelude::*;
    pub fn cut() -> impl Strategy<Value = Cut> {
        prop_oneof![2 => any::<u16>().prop_map(Cut::At), 3 => (0u8..3, -2i8..=2).prop_map(|(arg, d)| Cut::Near { arg, d })]
    }
    pub fn max() -> impl Strategy<Value = u32> {
        prop_oneof![3 => Just(65535u32), 1 => Just(65534u32), 1 => 65500u32..65535, 1 => 700u32..3000, 1 => 4000u32..65000]
    }
    pub fn plan(cuts: usize) -> impl Strategy<Value = Plan> {
        (vec(cut(), 0..=cuts), max()).prop_map(|(cuts, max)| Plan { cuts, max })
    }
    pub fn trace() -> impl Strategy<Value = Trace> {
        prop_oneof![Just(Trace::default()), (any::<u64>(), any::<u64>(), any::<u64>(), 0u8..=1).prop_map(|(span, parent, trace, flags)| Trace { span, parent, trace, flags })]
    }
}
