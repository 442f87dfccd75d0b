//! Interface of rusoto_core that artefacta uses, without any network code.
mod stream;
pub use stream::ByteStream;
pub mod region {
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub enum Region { UsEast1, EuWest1, EuCentral1, Custom { name: String, endpoint: String } }
    impl Region {
        pub fn name(&self) -> &str { match self { Region::UsEast1 => "us-east-1", Region::EuWest1 => "eu-west-1", Region::EuCentral1 => "eu-central-1", Region::Custom { name, .. } => name } }
    }
    impl Default for Region { fn default() -> Region { Region::UsEast1 } }
}
pub use region::Region;
pub mod request {
    use bytes::Bytes;
    use std::{error::Error, fmt};
    #[derive(Clone, PartialEq)]
    pub struct BufferedHttpResponse { pub status: http::StatusCode, pub body: Bytes, pub headers: http::HeaderMap<String> }
    impl BufferedHttpResponse { pub fn body_as_str(&self) -> &str { std::str::from_utf8(&self.body).unwrap_or("") } }
    impl fmt::Debug for BufferedHttpResponse {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "BufferedHttpResponse {{status: {:?}, body: {:?} }}", self.status, self.body) }
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct HttpDispatchError { message: String }
    impl HttpDispatchError { pub fn new(message: String) -> HttpDispatchError { HttpDispatchError { message } } }
    impl Error for HttpDispatchError {}
    impl fmt::Display for HttpDispatchError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.message) } }
    impl From<std::io::Error> for HttpDispatchError { fn from(e: std::io::Error) -> Self { HttpDispatchError::new(e.to_string()) } }
}
pub use request::HttpDispatchError;
pub mod credential {
    use std::{error::Error, fmt};
    #[derive(Clone, Debug, PartialEq)]
    pub struct CredentialsError { pub message: String }
    impl Error for CredentialsError {}
    impl fmt::Display for CredentialsError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.message) } }
}
mod error {
    use super::{credential::CredentialsError, request::{BufferedHttpResponse, HttpDispatchError}};
    use std::{error::Error, fmt};
    #[derive(Debug, PartialEq)]
    pub enum RusotoError<E> {
        Service(E), HttpDispatch(HttpDispatchError), Credentials(CredentialsError), Validation(String), ParseError(String),
        Unknown(BufferedHttpResponse), Blocking,
    }
    pub type RusotoResult<T, E> = Result<T, RusotoError<E>>;
    impl<E> From<CredentialsError> for RusotoError<E> { fn from(e: CredentialsError) -> Self { RusotoError::Credentials(e) } }
    impl<E> From<HttpDispatchError> for RusotoError<E> { fn from(e: HttpDispatchError) -> Self { RusotoError::HttpDispatch(e) } }
    impl<E> From<std::io::Error> for RusotoError<E> { fn from(e: std::io::Error) -> Self { RusotoError::HttpDispatch(e.into()) } }
    impl<E: Error + 'static> fmt::Display for RusotoError<E> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            match *self {
                RusotoError::Service(ref e) => write!(f, "{}", e),
                RusotoError::Validation(ref c) => write!(f, "{}", c),
                RusotoError::Credentials(ref e) => write!(f, "{}", e),
                RusotoError::HttpDispatch(ref e) => write!(f, "{}", e),
                RusotoError::ParseError(ref c) => write!(f, "{}", c),
                RusotoError::Unknown(ref c) => write!(f, "Request ID: None Body: {}", c.body_as_str()),
                RusotoError::Blocking => write!(f, "Failed to run blocking future"),
            }
        }
    }
    impl<E: Error + 'static> Error for RusotoError<E> {
        fn source(&self) -> Option<&(dyn Error + 'static)> {
            match *self {
                RusotoError::Service(ref e) => Some(e),
                RusotoError::Credentials(ref e) => Some(e),
                RusotoError::HttpDispatch(ref e) => Some(e),
                _ => None,
            }
        }
    }
}
pub use error::{RusotoError, RusotoResult};
