//! stand-in: absolute URLs `scheme://authority/path?query`, and joining a relative reference
use std::fmt;
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Url { root: String, path: String, query: Option<String> }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ParseError { RelativeUrlWithoutBase }
impl fmt::Display for ParseError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("relative URL without a base") } }
impl std::error::Error for ParseError {}
fn dots(path: &str) -> String {
    let mut out: Vec<&str> = vec![];
    let parts: Vec<&str> = path[1..].split('/').collect();
    let n = parts.len();
    for (i, p) in parts.into_iter().enumerate() {
        match p {
            "." => if i + 1 == n { out.push("") },
            ".." => { out.pop(); if i + 1 == n { out.push("") } }
            _ => out.push(p),
        }
    }
    format!("/{}", out.join("/"))
}
impl Url {
    pub fn parse(s: &str) -> Result<Self, ParseError> {
        let i = s.find("://").ok_or(ParseError::RelativeUrlWithoutBase)?;
        let end = s[i + 3..].find(|c| c == '/' || c == '?').map(|k| i + 3 + k).unwrap_or(s.len());
        let u = Url { root: s[..end].to_string(), path: "/".to_string(), query: None };
        let rest = &s[end..];
        let (p, q) = match rest.find('?') { Some(k) => (&rest[..k], Some(rest[k + 1..].to_string())), None => (rest, None) };
        Ok(Url { path: if p.is_empty() { "/".to_string() } else { dots(p) }, query: q, ..u })
    }
    pub fn join(&self, s: &str) -> Result<Self, ParseError> {
        if s.contains("://") { return Url::parse(s) }
        let (p, q) = match s.find('?') { Some(k) => (&s[..k], Some(s[k + 1..].to_string())), None => (s, None) };
        let path = if p.starts_with('/') { dots(p) } else if p.is_empty() { self.path.clone() } else { dots(&format!("{}{}", &self.path[..self.path.rfind('/').unwrap() + 1], p)) };
        Ok(Url { root: self.root.clone(), path, query: if s.is_empty() { self.query.clone() } else { q } })
    }
    pub fn path(&self) -> &str { &self.path }
    pub fn query(&self) -> Option<&str> { self.query.as_deref() }
    pub fn as_root(&self) -> &str { &self.root }
    pub fn set_path(&mut self, p: &str) { self.path = if p.starts_with('/') { p.to_string() } else { format!("/{p}") } }
    pub fn set_query(&mut self, q: Option<&str>) { self.query = q.map(|x| x.to_string()) }
}
impl fmt::Display for Url { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}{}", self.root, self.path)?; if let Some(q) = &self.query { write!(f, "?{q}")?; } Ok(()) } }
impl fmt::Debug for Url { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self}") } }
impl std::str::FromStr for Url { type Err = ParseError; fn from_str(s: &str) -> Result<Self, ParseError> { Url::parse(s) } }
impl TryFrom<&str> for Url { type Error = ParseError; fn try_from(s: &str) -> Result<Self, ParseError> { Url::parse(s) } }
