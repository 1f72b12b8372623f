//! Stand-in for the `failure` crate: `Fail`, `Error` (with downcasting), `format_err!`, `bail!`, `ensure!`.
use std::fmt::{self, Debug, Display};

pub use failure_derive::Fail;

pub trait Fail: Display + Debug + Send + Sync + 'static {
    fn name(&self) -> Option<&str> {
        None
    }
    fn cause(&self) -> Option<&dyn Fail> {
        None
    }
    #[doc(hidden)]
    fn as_any(&self) -> &dyn std::any::Any;
    #[doc(hidden)]
    fn into_any(self: Box<Self>) -> Box<dyn std::any::Any>;
}

impl<E: std::error::Error + Send + Sync + 'static> Fail for E {
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
    fn into_any(self: Box<Self>) -> Box<dyn std::any::Any> {
        self
    }
}

impl dyn Fail {
    pub fn downcast_ref<T: Fail>(&self) -> Option<&T> {
        self.as_any().downcast_ref::<T>()
    }
}

pub struct Error {
    inner: Box<dyn Fail>,
}

#[derive(Debug)]
pub struct ErrorMessage(pub String);
impl Display for ErrorMessage {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for ErrorMessage {}

pub fn err_msg<D: Display + Debug + Sync + Send + 'static>(msg: D) -> Error {
    Error::from(ErrorMessage(msg.to_string()))
}

impl<F: Fail> From<F> for Error {
    fn from(f: F) -> Self {
        Error { inner: Box::new(f) }
    }
}

impl Error {
    pub fn as_fail(&self) -> &dyn Fail {
        &*self.inner
    }
    pub fn downcast_ref<T: Fail>(&self) -> Option<&T> {
        self.inner.as_any().downcast_ref::<T>()
    }
    pub fn downcast<T: Fail>(self) -> Result<T, Error> {
        if self.inner.as_any().is::<T>() {
            Ok(*self.inner.into_any().downcast::<T>().unwrap())
        } else {
            Err(self)
        }
    }
}

impl Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Display::fmt(&*self.inner, f)
    }
}
impl Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Debug::fmt(&*self.inner, f)
    }
}

pub type Fallible<T> = Result<T, Error>;

#[macro_export]
macro_rules! format_err {
    ($($arg:tt)*) => { $crate::err_msg(::std::format!($($arg)*)) };
}
#[macro_export]
macro_rules! bail {
    ($($arg:tt)*) => { return ::std::result::Result::Err($crate::format_err!($($arg)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { $crate::bail!($($arg)*) } };
}
