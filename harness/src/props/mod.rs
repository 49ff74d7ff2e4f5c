use crate::engine::{self, Tier};

pub enum Do {
    Check(Tier, u64),
    Replay(serde_json::Value),
    One(Tier, u64, i64, String),
}
fn go<P: engine::Prop>(p: P, d: Do) -> i32 {
    match d {
        Do::Check(t, s) => engine::check(p, t, s),
        Do::Replay(c) => engine::replay(p, c),
        Do::One(t, s, i, dump) => engine::one(p, t, s, i, dump.as_ref()),
    }
}

macro_rules! props {
    ($($m:ident $id:literal),*) => {
        $(mod $m;)*
        pub fn dispatch(id: &str, d: Do) -> i32 {
            match id {
                $($id => go($m::P, d),)*
                _ => {
                    eprintln!("unknown property {id}");
                    2
                }
            }
        }
    };
}
props!(c01 "C01", c02 "C02", c03 "C03", c04 "C04", c05 "C05", c06 "C06", c07 "C07", c08 "C08", c09 "C09", c10 "C10", c11 "C11", c12 "C12", c13 "C13", c14 "C14", c15 "C15", c16 "C16", c17 "C17", c18 "C18", c19 "C19", c20 "C20", c21 "C21", c22 "C22", c23 "C23", c24 "C24", c25 "C25", c26 "C26");

pub use c16::child as serve;
pub use c22::EXPECTED as EXPECTED_PANIC;

pub mod prelude {
    pub use crate::blob::{Arg, Cursor, Len};
    pub use crate::engine::*;
    pub use crate::peer::{Ev, Raw};
    pub use crate::sut::*;
    pub use crate::wire::{Asm, Frame, Msg, Plan};
    pub use crate::{blob, peer, wire};
    pub use proptest::collection::vec;
    pub use proptest::prelude::*;
    pub use proptest::strategy::BoxedStrategy;
    pub use serde::{Deserialize, Serialize};
    pub use std::future::Future;
    pub use std::net::SocketAddr;
    pub use std::pin::Pin;
    pub use std::sync::{Arc, Mutex};
    pub use std::time::Duration;
    pub type Fut = Pin<Box<dyn Future<Output = R> + Send>>;
}
