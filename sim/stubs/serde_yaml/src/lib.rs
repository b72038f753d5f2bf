//! Stand-in for `serde_yaml`: flat `KEY: value` files, which is what network configurations are.
//! Nested blocks are skipped.
use serde::de::DeserializeOwned;
use serde_json::{Map, Value};

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T> {
    let mut m = Map::new();
    for line in s.lines() {
        if line.starts_with([' ', '\t', '#', '-']) || line.trim().is_empty() {
            continue;
        }
        let Some((k, v)) = line.split_once(':') else { return Err(Error(format!("bad line: {line}"))) };
        let mut v = v.trim();
        let quoted = v.len() >= 2 && (v.starts_with('\'') || v.starts_with('"'));
        if quoted {
            let q = v.chars().next().unwrap();
            v = v[1..].split(q).next().unwrap();
        } else if let Some(i) = v.find(" #") {
            v = v[..i].trim();
        }
        if v.starts_with('#') || (v.is_empty() && !quoted) {
            continue;
        }
        let val = match v.parse::<u64>() {
            Ok(n) if !quoted => Value::from(n),
            _ => Value::from(v),
        };
        m.insert(k.trim().to_string(), val);
    }
    serde_json::from_value(Value::Object(m)).map_err(|e| Error(e.to_string()))
}
pub fn from_slice<T: DeserializeOwned>(b: &[u8]) -> Result<T> {
    from_str(std::str::from_utf8(b).map_err(|e| Error(e.to_string()))?)
}
pub fn from_reader<R: std::io::Read, T: DeserializeOwned>(mut r: R) -> Result<T> {
    let mut s = String::new();
    r.read_to_string(&mut s).map_err(|e| Error(e.to_string()))?;
    from_str(&s)
}
