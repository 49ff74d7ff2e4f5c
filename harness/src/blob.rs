//! Compact descriptions of message contents, and their deterministic expansion.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Room for arguments in a continuation frame written by the code under test, as its frame limit stands.
/// Only steers lengths towards frame boundaries: no oracle depends on it.
pub const CONT_ROOM: i64 = 65516;
pub fn request_room(service: usize, scheme: usize) -> i64 {
    65534 - 16 - 1 - 1 - (4 + 25 + 1 + service as i64 + 1 + (1 + 2 + 1 + scheme as i64) + (1 + 2 + 1 + service as i64))
}
pub fn response_room(service: usize, scheme: usize) -> i64 {
    65534 - 16 - 1 - 1 - (1 + 25 + 1 + (1 + 2 + 1 + scheme as i64) + (1 + 2 + 1 + service as i64))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Len {
    Abs(u32),
    /// Ends `delta` bytes past the end of the frame reached after `frames` more full frames.
    Edge { frames: u8, delta: i8 },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Arg {
    pub len: Len,
    pub salt: u8,
    /// Text only: multi-byte characters.
    pub wide: bool,
}

/// Follows a writer's position so that `Len::Edge` lands near frame ends.
pub struct Cursor {
    room: i64,
}
impl Cursor {
    pub fn new(first_room: i64) -> Self {
        Cursor { room: first_room }
    }
    pub fn resolve(&mut self, len: Len) -> usize {
        let n = match len {
            Len::Abs(n) => n as i64,
            Len::Edge { frames, delta } => (self.room - 2 + frames as i64 * (CONT_ROOM - 2) + delta as i64).max(0),
        };
        self.skip(n as usize);
        n as usize
    }
    pub fn skip(&mut self, n: usize) {
        let mut left = n as i64;
        if self.room < 2 {
            self.room = CONT_ROOM - 2;
        }
        self.room -= 2;
        while left > self.room {
            left -= self.room;
            self.room = CONT_ROOM - 2;
        }
        self.room -= left;
        if self.room == 0 {
            self.room = CONT_ROOM - 2; // an arg ending with its frame is closed in the next one
        }
    }
}

pub fn bytes(salt: u8, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut x: u32 = 0x9e37 ^ ((salt as u32) << 16) ^ (n as u32);
    for i in 0..n {
        if i % 4 == 0 {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
        }
        v.push((x >> ((i % 4) * 8)) as u8);
    }
    v
}

/// A string of exactly `n` bytes.
pub fn text(salt: u8, n: usize, wide: bool) -> String {
    let mut s = String::with_capacity(n + 4);
    let raw = bytes(salt, n.max(1));
    let mut i = 0;
    while s.len() < n {
        let left = n - s.len();
        let b = raw[i % raw.len()];
        i += 1;
        let c = if !wide {
            (b' ' + b % 95) as char
        } else {
            match b % 5 {
                0 => char::from_u32(0x10000 + b as u32 * 37).unwrap(),
                1 => char::from_u32(0x800 + b as u32 * 91).unwrap(),
                2 => char::from_u32(0xa1 + b as u32).unwrap(),
                3 => (b % 128) as char,
                _ => '\0',
            }
        };
        if c.len_utf8() <= left {
            s.push(c);
        } else {
            s.push('~');
        }
    }
    s
}

impl Arg {
    pub fn text(&self, c: &mut Cursor) -> String {
        let n = c.resolve(self.len);
        text(self.salt, n, self.wide)
    }
    pub fn bytes(&self, c: &mut Cursor) -> Vec<u8> {
        let n = c.resolve(self.len);
        bytes(self.salt, n)
    }
    pub fn abs(n: u32, salt: u8) -> Arg {
        Arg { len: Len::Abs(n), salt, wide: false }
    }
}

pub fn len(big: u32) -> impl Strategy<Value = Len> {
    prop_oneof![
        2 => Just(Len::Abs(0)),
        5 => (1u32..40).prop_map(Len::Abs),
        2 => (40u32..3000).prop_map(Len::Abs),
        5 => (0u8..=1, -8i8..=8).prop_map(|(frames, delta)| Len::Edge { frames, delta }),
        1 => (2u8..=3, -8i8..=8).prop_map(|(frames, delta)| Len::Edge { frames, delta }),
        2 => (0..big).prop_map(Len::Abs),
    ]
}
pub fn small_len() -> impl Strategy<Value = Len> {
    prop_oneof![1 => Just(Len::Abs(0)), 8 => (1u32..60).prop_map(Len::Abs), 1 => (60u32..2000).prop_map(Len::Abs)]
}
pub fn arg(big: u32) -> BoxedStrategy<Arg> {
    (len(big), any::<u8>(), any::<bool>()).prop_map(|(len, salt, wide)| Arg { len, salt, wide }).boxed()
}
pub fn small_arg() -> BoxedStrategy<Arg> {
    (small_len(), any::<u8>(), any::<bool>()).prop_map(|(len, salt, wide)| Arg { len, salt, wide }).boxed()
}
pub fn is_edge(a: &Arg) -> bool {
    matches!(a.len, Len::Edge { .. })
}
