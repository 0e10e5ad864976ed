//! What the checks share: rcrypto objects paired with their references, and random sources.
pub use proptest::prelude::*;
pub use refimpl::bn::Bn;
pub use refimpl::engine::{ok, okl, okls, Res, Run};
pub use refimpl::fuel::{burn, burn_by, fuel};
pub use refimpl::gen::*;
pub use refimpl::{ensure, fail, hex, Sm64};
pub use serde::{Deserialize, Serialize};

pub mod ciphers;
pub use ciphers::*;
pub mod digests;
pub use digests::*;
pub mod modes;
pub mod curves;
pub mod pk;

/// Err(..) from the library where success is required
#[macro_export]
macro_rules! must {
    ($e:expr, $($a:tt)*) => { match $e { Ok(v) => v, Err(e) => return Err(format!("{}: unexpected error: {:?}", format!($($a)*), e)) } };
}

pub fn eq(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want { return Ok(()); }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let cut = |v: &[u8]| { let h = hex(v); if h.len() > 160 { format!("{}..({} bytes)", &h[..160], v.len()) } else { h } };
    Err(format!("{}: got {} want {} (first difference at byte {})", what, cut(got), cut(want), at))
}

pub fn s(x: impl std::fmt::Display) -> String { x.to_string() }
