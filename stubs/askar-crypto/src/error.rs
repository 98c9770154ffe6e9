use std::fmt;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum ErrorKind {
    Encryption,
    ExceededBuffer,
    Invalid,
    InvalidKeyData,
    InvalidNonce,
    MissingSecretKey,
    Unexpected,
    Usage,
    Unsupported,
}

impl ErrorKind {
    pub fn as_str(&self) -> &'static str {
        match self {
            Self::Encryption => "Encryption error",
            Self::ExceededBuffer => "Exceeded allocated buffer",
            Self::Invalid => "Invalid input",
            Self::InvalidNonce => "Invalid encryption nonce",
            Self::InvalidKeyData => "Invalid key data",
            Self::MissingSecretKey => "Missing secret key",
            Self::Unexpected => "Unexpected error",
            Self::Usage => "Usage error",
            Self::Unsupported => "Unsupported",
        }
    }
}

#[derive(Debug)]
pub struct Error {
    kind: ErrorKind,
    message: Option<String>,
}

impl Error {
    pub fn from_msg(kind: ErrorKind, msg: &str) -> Self {
        Error { kind, message: Some(msg.to_owned()) }
    }
    pub fn kind(&self) -> ErrorKind {
        self.kind
    }
    pub fn message(&self) -> Option<&str> {
        self.message.as_deref()
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.message {
            Some(m) => f.write_str(m),
            None => f.write_str(self.kind.as_str()),
        }
    }
}

impl std::error::Error for Error {}

impl PartialEq for Error {
    fn eq(&self, o: &Self) -> bool {
        self.kind == o.kind && self.message == o.message
    }
}

impl From<ErrorKind> for Error {
    fn from(kind: ErrorKind) -> Self {
        Error { kind, message: None }
    }
}

pub(crate) fn err<T>(kind: ErrorKind, msg: &str) -> Result<T, Error> {
    Err(Error::from_msg(kind, msg))
}
