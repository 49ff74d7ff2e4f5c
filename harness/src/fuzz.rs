//! Damage done to frame sequences and byte streams, and what a damaged sequence still legally encodes.
use crate::wire::{self, Asm, Frame, Msg};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A change of the frame sequence; `at` picks the frame (a 65536th).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mut {
    pub at: u16,
    pub kind: Kind,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    Duplicate,
    Drop,
    SwapNext,
    /// Moves the frame to another position.
    Move(u16),
    Type(u8),
    Id(u32),
    Truncate(u16),
    Extend(Vec<u8>),
    /// Changes one byte: near the front (where the fields are) or anywhere.
    Byte(u16, u8),
    FrontByte(u8, u8),
    /// Changes the two bytes at the offset to this number.
    Word(u16, u16),
    Insert(Loose),
    /// Replaces what the frame carries.
    Body(Vec<u8>),
}
/// A frame out of place.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Loose {
    pub ty: u8,
    pub id: u8,
    pub body: LooseBody,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum LooseBody {
    Bytes(Vec<u8>),
    /// A continuation's body: flags and chunk lengths.
    Cont(u8, Vec<u16>),
    Init(u16),
    Error(u8, u16),
    /// As long as a frame can be.
    Max(u8),
}
impl Loose {
    pub fn frame(&self) -> Frame {
        let id = self.id as u32;
        match &self.body {
            LooseBody::Bytes(b) => Frame::new(self.ty, id, b.clone()),
            LooseBody::Cont(flags, chunks) => {
                let mut b = vec![*flags, 0];
                for n in chunks {
                    let n = (*n as usize).min(6000);
                    b.extend((n as u16).to_be_bytes());
                    b.extend(crate::blob::bytes(*flags, n));
                }
                Frame::new(self.ty, id, b)
            }
            LooseBody::Init(v) => Frame { ty: self.ty, ..wire::init(0, id, *v, &[("a".into(), "b".into())]) },
            LooseBody::Error(c, n) => Frame { ty: self.ty, ..wire::error(id, *c, &vec![b'x'; *n as usize % 60000]) },
            LooseBody::Max(fill) => Frame::new(self.ty, id, vec![*fill; wire::MAX - 16]),
        }
    }
}
/// A change of the byte stream.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ByteMut {
    Set(u16, u8),
    Cut(u16),
    Insert(u16, Vec<u8>),
    Delete(u16, u16),
}

pub fn frames(mut f: Vec<Frame>, muts: &[Mut]) -> Vec<Frame> {
    for m in muts {
        if f.is_empty() {
            if let Kind::Insert(l) = &m.kind {
                f.push(l.frame());
            }
            continue;
        }
        let i = f.len() * m.at as usize / 65536;
        let n = f[i].body.len();
        match &m.kind {
            Kind::Duplicate => f.insert(i, f[i].clone()),
            Kind::Drop => {
                f.remove(i);
            }
            Kind::SwapNext => {
                if i + 1 < f.len() {
                    f.swap(i, i + 1);
                }
            }
            Kind::Move(to) => {
                let x = f.remove(i);
                let j = (f.len() + 1) * *to as usize / 65536;
                f.insert(j, x);
            }
            Kind::Type(t) => f[i].ty = *t,
            Kind::Id(id) => f[i].id = *id,
            Kind::Truncate(k) => f[i].body.truncate(n * *k as usize / 65536),
            Kind::Extend(b) => {
                f[i].body.extend(b);
                f[i].body.truncate(wire::MAX - 16);
            }
            Kind::Byte(o, x) if n > 0 => f[i].body[n * *o as usize / 65536] ^= (*x).max(1),
            Kind::FrontByte(o, x) if n > 0 => {
                let o = *o as usize % n.min(80);
                f[i].body[o] = *x;
            }
            Kind::Word(o, v) if n > 1 => {
                let o = (n - 1) * *o as usize / 65536;
                f[i].body[o..o + 2].copy_from_slice(&v.to_be_bytes());
            }
            Kind::Insert(l) => f.insert(i, l.frame()),
            Kind::Body(b) => f[i].body = b.clone(),
            _ => {}
        }
    }
    f
}
pub fn bytes(mut b: Vec<u8>, muts: &[ByteMut]) -> Vec<u8> {
    for m in muts {
        let at = |o: u16, b: &Vec<u8>| b.len() * o as usize / 65536;
        match m {
            ByteMut::Set(o, x) if !b.is_empty() => {
                let i = at(*o, &b);
                b[i] = *x;
            }
            ByteMut::Cut(o) => {
                let i = at(*o, &b);
                b.truncate(i);
            }
            ByteMut::Insert(o, x) => {
                let i = at(*o, &b);
                b.splice(i..i, x.iter().copied());
            }
            ByteMut::Delete(o, n) => {
                let i = at(*o, &b);
                let j = (i + *n as usize).min(b.len());
                b.drain(i..j);
            }
            _ => {}
        }
    }
    b
}

/// Splits a stream into frames as far as its lengths allow.
pub fn parse(b: &[u8]) -> Vec<Frame> {
    let mut b = b.to_vec();
    let mut out = vec![];
    while let Ok(Some(f)) = wire::take(&mut b) {
        out.push(f);
    }
    out
}
/// The messages a receiver may legally make of a frame sequence: for each call frame, the message it starts, continued
/// by the following continuation frames with its id. Frames of other types with that id may be ignored or end it, so
/// that every message listed here MAY be taken for complete; nothing else may.
pub fn messages(f: &[Frame], response: bool) -> Vec<(u32, Msg)> {
    let (first, cont) = if response { (wire::CALL_RES, wire::RES_CONT) } else { (wire::CALL_REQ, wire::REQ_CONT) };
    let mut out = vec![];
    for (i, s) in f.iter().enumerate().filter(|s| s.1.ty == first) {
        let mut a = Asm::default();
        for x in std::iter::once(s).chain(f[i + 1..].iter().filter(|x| x.id == s.id && x.ty == cont)) {
            // Checksums, where used, are never right ones here.
            let fine = wire::parse_call(x).is_ok_and(|c| c.csum == 0) && a.feed(x, false).is_ok();
            if !fine || a.done {
                break;
            }
        }
        if let (true, Some(mut m)) = (a.done, a.msg) {
            if m.args.len() <= 3 {
                m.args.resize(3, vec![]);
                out.push((s.id, m));
            }
        }
    }
    out
}
pub fn scheme_is(m: &Msg, scheme: &str) -> bool {
    m.headers.iter().any(|(k, v)| k == b"as" && v == scheme.as_bytes())
}

pub fn ty() -> impl Strategy<Value = u8> {
    prop_oneof![8 => proptest::sample::select(wire::TYPES.to_vec()), 1 => any::<u8>()]
}
pub fn loose() -> impl Strategy<Value = Loose> {
    let body = prop_oneof![
        3 => vec(any::<u8>(), 0..60).prop_map(LooseBody::Bytes),
        4 => (prop_oneof![0u8..=3, any::<u8>()], vec(prop_oneof![0u16..20, any::<u16>()], 0..5)).prop_map(|(f, c)| LooseBody::Cont(f, c)),
        1 => prop_oneof![Just(2u16), any::<u16>()].prop_map(LooseBody::Init),
        1 => (any::<u8>(), any::<u16>()).prop_map(|(c, n)| LooseBody::Error(c, n)),
        1 => any::<u8>().prop_map(LooseBody::Max),
    ];
    (ty(), 0u8..6, body).prop_map(|(ty, id, body)| Loose { ty, id, body })
}
pub fn mutation() -> impl Strategy<Value = Mut> {
    let kind = prop_oneof![
        2 => Just(Kind::Duplicate),
        1 => Just(Kind::Drop),
        1 => Just(Kind::SwapNext),
        1 => any::<u16>().prop_map(Kind::Move),
        2 => ty().prop_map(Kind::Type),
        2 => prop_oneof![0u32..6, any::<u32>()].prop_map(Kind::Id),
        3 => any::<u16>().prop_map(Kind::Truncate),
        2 => vec(any::<u8>(), 1..8).prop_map(Kind::Extend),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(o, x)| Kind::Byte(o, x)),
        5 => (any::<u8>(), prop_oneof![0u8..6, any::<u8>()]).prop_map(|(o, x)| Kind::FrontByte(o, x)),
        2 => (any::<u16>(), prop_oneof![Just(0u16), Just(1), Just(65535), any::<u16>()]).prop_map(|(o, x)| Kind::Word(o, x)),
        3 => loose().prop_map(Kind::Insert),
        1 => vec(any::<u8>(), 0..40).prop_map(Kind::Body),
    ];
    (any::<u16>(), kind).prop_map(|(at, kind)| Mut { at, kind })
}
pub fn byte_mutation() -> impl Strategy<Value = ByteMut> {
    prop_oneof![
        3 => (any::<u16>(), any::<u8>()).prop_map(|(o, x)| ByteMut::Set(o, x)),
        1 => any::<u16>().prop_map(ByteMut::Cut),
        2 => (any::<u16>(), vec(any::<u8>(), 1..20)).prop_map(|(o, x)| ByteMut::Insert(o, x)),
        2 => (any::<u16>(), prop_oneof![1u16..30, any::<u16>()]).prop_map(|(o, n)| ByteMut::Delete(o, n)),
    ]
}
