//! Stands in for `reqwest`: a client whose server is a function of this process.

use std::fmt;
use std::io::Read;
use std::sync::{Arc, OnceLock, RwLock};

/// What the server answers.
pub enum Answer {
    /// No connection.
    Fail(String),
    /// A status and a body.
    Body(u16, Box<dyn Read + Send>),
}

pub type Server = Arc<dyn Fn(&str) -> Answer + Send + Sync>;

fn server() -> &'static RwLock<Option<Server>> {
    static S: OnceLock<RwLock<Option<Server>>> = OnceLock::new();
    S.get_or_init(Default::default)
}

/// Sets the server of this process.
pub fn serve(s: Server) {
    *server().write().unwrap() = Some(s);
}

#[derive(Debug)]
pub struct Error(Option<u16>, String);
pub type Result<T> = std::result::Result<T, Error>;

impl Error {
    pub fn status(&self) -> Option<StatusCode> {
        self.0.map(StatusCode)
    }
    pub fn is_connect(&self) -> bool {
        self.0.is_none()
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.1)
    }
}
impl std::error::Error for Error {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const OK: Self = Self(200);
    pub const NOT_FOUND: Self = Self(404);
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
}
impl PartialEq<u16> for StatusCode {
    fn eq(&self, o: &u16) -> bool {
        self.0 == *o
    }
}

#[derive(Debug, Clone)]
pub struct Certificate;
impl Certificate {
    pub fn from_pem(_: &[u8]) -> Result<Self> {
        Ok(Self)
    }
}

pub mod blocking {
    use super::*;

    #[derive(Debug, Default, Clone)]
    pub struct Client;
    #[derive(Debug, Default)]
    pub struct ClientBuilder;
    pub struct RequestBuilder(String);
    pub struct Response(u16, Box<dyn Read + Send>);

    impl Client {
        pub fn new() -> Self {
            Self
        }
        pub fn builder() -> ClientBuilder {
            ClientBuilder
        }
        pub fn get(&self, url: impl AsRef<str>) -> RequestBuilder {
            RequestBuilder(url.as_ref().to_owned())
        }
    }
    impl ClientBuilder {
        pub fn new() -> Self {
            Self
        }
        pub fn add_root_certificate(self, _: Certificate) -> Self {
            self
        }
        pub fn timeout(self, _: impl Into<Option<std::time::Duration>>) -> Self {
            self
        }
        pub fn connect_timeout(self, _: impl Into<Option<std::time::Duration>>) -> Self {
            self
        }
        pub fn user_agent(self, _: impl AsRef<str>) -> Self {
            self
        }
        pub fn build(self) -> Result<Client> {
            Ok(Client)
        }
    }
    impl RequestBuilder {
        pub fn send(self) -> Result<Response> {
            let s = server().read().unwrap().clone();
            match s.map(|s| s(&self.0)) {
                Some(Answer::Body(status, body)) => Ok(Response(status, body)),
                Some(Answer::Fail(e)) => Err(Error(None, e)),
                None => Err(Error(None, "no server".into())),
            }
        }
    }
    impl Response {
        pub fn status(&self) -> StatusCode {
            StatusCode(self.0)
        }
        pub fn error_for_status(self) -> Result<Self> {
            if self.0 >= 400 {
                return Err(Error(Some(self.0), format!("status {}", self.0)));
            }
            Ok(self)
        }
        pub fn bytes(mut self) -> Result<Vec<u8>> {
            let mut v = vec![];
            self.1.read_to_end(&mut v).map_err(|e| Error(None, e.to_string()))?;
            Ok(v)
        }
        pub fn text(self) -> Result<String> {
            Ok(String::from_utf8_lossy(&self.bytes()?).into_owned())
        }
    }
    impl Read for Response {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            self.1.read(buf)
        }
    }
    pub fn get(url: impl AsRef<str>) -> Result<Response> {
        Client.get(url).send()
    }
}
