//! Stand-in for tower_lsp::jsonrpc.
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::borrow::Cow;

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum ErrorCode {
    ParseError,
    InvalidRequest,
    MethodNotFound,
    InvalidParams,
    InternalError,
    RequestCancelled,
    ContentModified,
    ServerError(i64),
}
impl ErrorCode {
    pub const fn code(&self) -> i64 {
        match *self {
            ErrorCode::ParseError => -32700,
            ErrorCode::InvalidRequest => -32600,
            ErrorCode::MethodNotFound => -32601,
            ErrorCode::InvalidParams => -32602,
            ErrorCode::InternalError => -32603,
            ErrorCode::RequestCancelled => -32800,
            ErrorCode::ContentModified => -32801,
            ErrorCode::ServerError(code) => code,
        }
    }
}
impl Serialize for ErrorCode {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        s.serialize_i64(self.code())
    }
}
impl<'de> Deserialize<'de> for ErrorCode {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        Ok(match i64::deserialize(d)? {
            -32700 => ErrorCode::ParseError,
            -32600 => ErrorCode::InvalidRequest,
            -32601 => ErrorCode::MethodNotFound,
            -32602 => ErrorCode::InvalidParams,
            -32603 => ErrorCode::InternalError,
            -32800 => ErrorCode::RequestCancelled,
            -32801 => ErrorCode::ContentModified,
            code => ErrorCode::ServerError(code),
        })
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Error {
    pub code: ErrorCode,
    pub message: Cow<'static, str>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<Value>,
}
impl Error {
    pub const fn new(code: ErrorCode) -> Self {
        Error { code, message: Cow::Borrowed("error"), data: None }
    }
    pub fn invalid_params<M: Into<Cow<'static, str>>>(message: M) -> Self {
        Error { code: ErrorCode::InvalidParams, message: message.into(), data: None }
    }
    pub fn internal_error() -> Self {
        Error { code: ErrorCode::InternalError, message: "Internal error".into(), data: None }
    }
    pub fn method_not_found() -> Self {
        Error { code: ErrorCode::MethodNotFound, message: "Method not found".into(), data: None }
    }
    pub fn invalid_request() -> Self {
        Error { code: ErrorCode::InvalidRequest, message: "Invalid request".into(), data: None }
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}: {}", self.code.code(), self.message)
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Id {
    Number(i64),
    String(String),
    #[default]
    Null,
}
impl std::fmt::Display for Id {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Id::Number(id) => write!(f, "{id}"),
            Id::String(id) => write!(f, "{id:?}"),
            Id::Null => f.write_str("null"),
        }
    }
}
impl From<i64> for Id {
    fn from(n: i64) -> Self {
        Id::Number(n)
    }
}
impl From<&'_ str> for Id {
    fn from(s: &'_ str) -> Self {
        Id::String(s.to_string())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Response {
    id: Id,
    kind: Result<Value>,
}
impl Response {
    pub const fn from_ok(id: Id, result: Value) -> Self {
        Response { id, kind: Ok(result) }
    }
    pub const fn from_error(id: Id, error: Error) -> Self {
        Response { id, kind: Err(error) }
    }
    pub fn from_parts(id: Id, kind: Result<Value>) -> Self {
        Response { id, kind }
    }
    pub fn into_parts(self) -> (Id, Result<Value>) {
        (self.id, self.kind)
    }
    pub const fn is_ok(&self) -> bool {
        self.kind.is_ok()
    }
    pub const fn is_error(&self) -> bool {
        !self.is_ok()
    }
    pub fn result(&self) -> Option<&Value> {
        self.kind.as_ref().ok()
    }
    pub fn error(&self) -> Option<&Error> {
        self.kind.as_ref().err()
    }
    pub const fn id(&self) -> &Id {
        &self.id
    }
}
impl Serialize for Response {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        let mut map = serde_json::Map::new();
        map.insert("jsonrpc".into(), "2.0".into());
        match &self.kind {
            Ok(v) => map.insert("result".into(), v.clone()),
            Err(e) => map.insert("error".into(), serde_json::to_value(e).unwrap()),
        };
        map.insert("id".into(), serde_json::to_value(&self.id).unwrap());
        Value::Object(map).serialize(s)
    }
}
impl<'de> Deserialize<'de> for Response {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        use serde::de::Error as _;
        let v = Value::deserialize(d)?;
        let id = serde_json::from_value(v.get("id").cloned().unwrap_or(Value::Null)).map_err(D::Error::custom)?;
        match (v.get("result"), v.get("error")) {
            (_, Some(e)) => Ok(Response::from_error(id, serde_json::from_value(e.clone()).map_err(D::Error::custom)?)),
            (Some(r), None) => Ok(Response::from_ok(id, r.clone())),
            (None, None) => Err(D::Error::custom("neither a result nor an error")),
        }
    }
}
