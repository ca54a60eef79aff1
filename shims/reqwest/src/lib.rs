//! stand-in: requests are recorded and answered from a list set by the caller; nothing is sent
pub use http::StatusCode;
pub use url::Url;
use std::cell::RefCell;
pub struct Error { kind: &'static str, text: String }
pub type Result<T> = std::result::Result<T, Error>;
impl Error {
    pub fn new(kind: &'static str, text: String) -> Self { Self { kind, text } }
    pub fn is_decode(&self) -> bool { self.kind == "decode" }
    pub fn is_builder(&self) -> bool { self.kind == "builder" }
    pub fn is_request(&self) -> bool { self.kind == "request" }
}
impl std::fmt::Debug for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{} error: {}", self.kind, self.text) } }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{} error: {}", self.kind, self.text) } }
impl std::error::Error for Error {}

/// a request as it would leave: the target without its query, the query's pairs, the headers set by the caller, the body
#[derive(Clone, Debug, PartialEq)]
pub struct Sent { pub method: &'static str, pub url: String, pub query: Vec<(String, String)>, pub headers: Vec<(String, String)>, pub body: Option<serde_json::Value> }
thread_local! {
    static LOG: RefCell<Vec<Sent>> = RefCell::new(vec![]);
    static ANSWERS: RefCell<Vec<(u16, String)>> = RefCell::new(vec![]);
}
pub fn answer_with(a: Vec<(u16, String)>) { ANSWERS.with(|x| { let mut a = a; a.reverse(); *x.borrow_mut() = a }); LOG.with(|x| x.borrow_mut().clear()) }
pub fn sent() -> Vec<Sent> { LOG.with(|x| x.borrow().clone()) }

#[derive(Clone, Debug, Default)]
pub struct Client {}
pub struct RequestBuilder { r: std::result::Result<Sent, Error> }
fn unescaped(s: &str) -> String { s.to_string() }
impl Client {
    pub fn new() -> Self { Self {} }
    fn req(&self, method: &'static str, u: Url) -> RequestBuilder {
        let query = u.query().map(|q| q.split('&').filter(|x| !x.is_empty()).map(|kv| match kv.find('=') { Some(i) => (unescaped(&kv[..i]), unescaped(&kv[i + 1..])), None => (unescaped(kv), String::new()) }).collect()).unwrap_or_default();
        RequestBuilder { r: Ok(Sent { method, url: format!("{}{}", u.as_root(), u.path()), query, headers: vec![], body: None }) }
    }
    pub fn get(&self, u: Url) -> RequestBuilder { self.req("GET", u) }
    pub fn post(&self, u: Url) -> RequestBuilder { self.req("POST", u) }
    pub fn put(&self, u: Url) -> RequestBuilder { self.req("PUT", u) }
    pub fn delete(&self, u: Url) -> RequestBuilder { self.req("DELETE", u) }
}
impl RequestBuilder {
    pub fn json<T: serde::Serialize + ?Sized>(mut self, x: &T) -> Self {
        match serde_json::to_value(x) {
            Ok(v) => if let Ok(s) = &mut self.r { s.body = Some(v) },
            Err(e) => self.r = Err(Error::new("builder", e.to_string())),
        }
        self
    }
    /// as serde_urlencoded: a sequence of pairs, or a map; a value is a text, a number, a bool or absent, never a sequence or a map
    pub fn query<T: serde::Serialize + ?Sized>(mut self, x: &T) -> Self {
        let mut pairs: Vec<(serde_json::Value, serde_json::Value)> = vec![];
        let mut bad = None;
        match serde_json::to_value(x) {
            Ok(serde_json::Value::Array(a)) => for p in a { match p { serde_json::Value::Array(mut kv) if kv.len() == 2 => { let v = kv.pop().unwrap(); pairs.push((kv.pop().unwrap(), v)) } _ => bad = Some("unsupported pair".to_string()) } },
            Ok(serde_json::Value::Object(m)) => for (k, v) in m { pairs.push((serde_json::Value::String(k), v)) },
            Ok(serde_json::Value::Null) => {}
            Ok(_) => bad = Some("top-level serializer supports only maps and structs".to_string()),
            Err(e) => bad = Some(e.to_string()),
        }
        for (k, v) in pairs {
            let text = |v: serde_json::Value| -> std::result::Result<Option<String>, String> { match v {
                serde_json::Value::String(s) => Ok(Some(s)), serde_json::Value::Number(n) => Ok(Some(n.to_string())), serde_json::Value::Bool(b) => Ok(Some(b.to_string())),
                serde_json::Value::Null => Ok(None), _ => Err("unsupported value".to_string()) } };
            match (text(k), text(v)) {
                (Ok(Some(k)), Ok(Some(v))) => if let Ok(s) = &mut self.r { s.query.push((k, v)) },
                (Ok(Some(_)), Ok(None)) => {}
                (Err(e), _) | (_, Err(e)) => bad = Some(e),
                _ => bad = Some("unsupported key".to_string()),
            }
        }
        if let (Some(e), true) = (bad, self.r.is_ok()) { self.r = Err(Error::new("builder", e)) }
        self
    }
    pub fn header<K: AsRef<str>, V: AsRef<str>>(mut self, k: K, v: V) -> Self { if let Ok(s) = &mut self.r { s.headers.push((k.as_ref().to_lowercase(), v.as_ref().to_string())) } self }
    pub async fn send(self) -> Result<Response> {
        let s = self.r?;
        LOG.with(|x| x.borrow_mut().push(s));
        match ANSWERS.with(|x| x.borrow_mut().pop()) {
            Some((code, body)) => Ok(Response { status: StatusCode::from_u16(code).unwrap(), body }),
            None => Err(Error::new("request", "connection refused".to_string())),
        }
    }
}
#[derive(Debug)]
pub struct Response { status: StatusCode, body: String }
impl Response {
    pub fn status(&self) -> StatusCode { self.status }
    pub async fn text(self) -> Result<String> { Ok(self.body) }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> { serde_json::from_str(&self.body).map_err(|e| Error::new("decode", e.to_string())) }
    pub fn error_for_status(self) -> Result<Self> { if self.status.is_client_error() || self.status.is_server_error() { Err(Error::new("status", self.status.to_string())) } else { Ok(self) } }
}
