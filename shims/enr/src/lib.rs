//! Stand-in: only the type name (and its string serde form) is used by the code under test.
use serde::{Deserialize, Serialize};
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(transparent)]
pub struct Enr<K>(pub String, #[serde(skip)] std::marker::PhantomData<K>);
pub mod k256 { pub mod ecdsa { #[derive(Debug, Clone, PartialEq)] pub struct SigningKey; } }
