//! Stand-in: only the type name (and its string serde form) is used by the code under test.
#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
#[serde(transparent)]
pub struct Multiaddr(pub String);
