//! stand-in: status codes
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct StatusCode(u16);
pub mod status {
    pub use crate::StatusCode;
    #[derive(Debug)]
    pub struct InvalidStatusCode;
    impl std::fmt::Display for InvalidStatusCode { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("invalid status code") } }
    impl std::error::Error for InvalidStatusCode {}
}
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub const CREATED: StatusCode = StatusCode(201);
    pub const ACCEPTED: StatusCode = StatusCode(202);
    pub const NO_CONTENT: StatusCode = StatusCode(204);
    pub const PARTIAL_CONTENT: StatusCode = StatusCode(206);
    pub const BAD_REQUEST: StatusCode = StatusCode(400);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode(500);
    pub const SERVICE_UNAVAILABLE: StatusCode = StatusCode(503);
    pub fn from_u16(x: u16) -> Result<Self, status::InvalidStatusCode> { if (100..1000).contains(&x) { Ok(Self(x)) } else { Err(status::InvalidStatusCode) } }
    pub fn as_u16(&self) -> u16 { self.0 }
    pub fn is_success(&self) -> bool { self.0 / 100 == 2 }
    pub fn is_client_error(&self) -> bool { self.0 / 100 == 4 }
    pub fn is_server_error(&self) -> bool { self.0 / 100 == 5 }
}
impl std::fmt::Debug for StatusCode { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::fmt::Display for StatusCode { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl TryFrom<u16> for StatusCode { type Error = status::InvalidStatusCode; fn try_from(x: u16) -> Result<Self, Self::Error> { Self::from_u16(x) } }
impl PartialEq<u16> for StatusCode { fn eq(&self, o: &u16) -> bool { self.0 == *o } }
