//! Stand-in for the `failure` 0.1 crate (not available offline), for use by the monitors only.
use std::any::{Any, TypeId};
use std::fmt::{self, Debug, Display};

pub use failure_derive::Fail;

pub trait Fail: Display + Debug + Send + Sync + 'static {
    fn name(&self) -> Option<&str> {
        None
    }
    fn cause(&self) -> Option<&dyn Fail> {
        None
    }
    #[doc(hidden)]
    fn __type_id(&self) -> TypeId {
        TypeId::of::<Self>()
    }
    fn context<D: Display + Send + Sync + 'static>(self, context: D) -> Context<D>
    where
        Self: Sized,
    {
        Context { context, failure: Some(Error::from(self)) }
    }
}

impl dyn Fail {
    pub fn is<T: Fail>(&self) -> bool {
        self.__type_id() == TypeId::of::<T>()
    }
    pub fn downcast_ref<T: Fail>(&self) -> Option<&T> {
        if self.is::<T>() {
            Some(unsafe { &*(self as *const dyn Fail as *const T) })
        } else {
            None
        }
    }
}

impl Fail for std::io::Error {}
impl Fail for fmt::Error {}
impl Fail for std::num::ParseIntError {}
impl Fail for std::num::ParseFloatError {}

pub struct Context<D: Display + Send + Sync + 'static> {
    context: D,
    failure: Option<Error>,
}
impl<D: Display + Send + Sync + 'static> Context<D> {
    pub fn new(context: D) -> Self {
        Context { context, failure: None }
    }
    pub fn get_context(&self) -> &D {
        &self.context
    }
}
impl<D: Display + Send + Sync + 'static> Display for Context<D> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Display::fmt(&self.context, f)
    }
}
impl<D: Display + Send + Sync + 'static> Debug for Context<D> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.context)?;
        if let Some(e) = &self.failure {
            write!(f, "\n\n{:?}", e)?;
        }
        Ok(())
    }
}
impl<D: Display + Send + Sync + 'static> Fail for Context<D> {
    fn cause(&self) -> Option<&dyn Fail> {
        self.failure.as_ref().map(|e| e.as_fail())
    }
}

trait AnyFail: Fail {
    fn as_fail(&self) -> &dyn Fail;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
}
impl<T: Fail> AnyFail for T {
    fn as_fail(&self) -> &dyn Fail {
        self
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
}

/// As in `failure`, `Error` is not itself a `Fail`, so that every `Fail` converts into it.
pub struct Error {
    inner: Box<dyn AnyFail>,
}
impl Error {
    pub fn as_fail(&self) -> &dyn Fail {
        (*self.inner).as_fail()
    }
    pub fn cause(&self) -> &dyn Fail {
        self.as_fail()
    }
    pub fn find_root_cause(&self) -> &dyn Fail {
        let mut f = self.as_fail();
        while let Some(c) = f.cause() {
            f = c;
        }
        f
    }
    pub fn is<T: Fail>(&self) -> bool {
        self.as_fail().is::<T>()
    }
    pub fn downcast<T: Fail>(self) -> Result<T, Error> {
        if self.is::<T>() {
            Ok(*self.inner.into_any().downcast::<T>().unwrap())
        } else {
            Err(self)
        }
    }
    pub fn downcast_ref<T: Fail>(&self) -> Option<&T> {
        self.as_fail().downcast_ref::<T>()
    }
    pub fn context<D: Display + Send + Sync + 'static>(self, context: D) -> Context<D> {
        Context { context, failure: Some(self) }
    }
    pub fn name(&self) -> Option<&str> {
        self.as_fail().name()
    }
}
impl<F: Fail> From<F> for Error {
    fn from(f: F) -> Error {
        Error { inner: Box::new(f) }
    }
}
impl Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Debug::fmt(self.as_fail(), f)
    }
}
impl Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Display::fmt(self.as_fail(), f)
    }
}
impl AsRef<dyn Fail> for Error {
    fn as_ref(&self) -> &dyn Fail {
        self.as_fail()
    }
}

#[derive(Debug)]
struct ErrorMessage<D: Display + Debug + Send + Sync + 'static>(D);
impl<D: Display + Debug + Send + Sync + 'static> Display for ErrorMessage<D> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Display::fmt(&self.0, f)
    }
}
impl<D: Display + Debug + Send + Sync + 'static> Fail for ErrorMessage<D> {}

pub fn err_msg<D: Display + Debug + Send + Sync + 'static>(msg: D) -> Error {
    Error::from(ErrorMessage(msg))
}

pub type Fallible<T> = Result<T, Error>;

pub trait ResultExt<T, E> {
    fn context<D: Display + Send + Sync + 'static>(self, context: D) -> Result<T, Context<D>>;
    fn with_context<F, D>(self, f: F) -> Result<T, Context<D>>
    where
        F: FnOnce(&E) -> D,
        D: Display + Send + Sync + 'static;
}
impl<T, E: Into<Error>> ResultExt<T, E> for Result<T, E> {
    fn context<D: Display + Send + Sync + 'static>(self, context: D) -> Result<T, Context<D>> {
        self.map_err(|e| e.into().context(context))
    }
    fn with_context<F, D>(self, f: F) -> Result<T, Context<D>>
    where
        F: FnOnce(&E) -> D,
        D: Display + Send + Sync + 'static,
    {
        self.map_err(|e| {
            let c = f(&e);
            e.into().context(c)
        })
    }
}

#[macro_export]
macro_rules! format_err {
    ($($arg:tt)*) => { $crate::err_msg(::std::format!($($arg)*)) };
}
#[macro_export]
macro_rules! bail {
    ($($arg:tt)*) => { return ::std::result::Result::Err($crate::format_err!($($arg)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { $crate::bail!($($arg)*) } };
}
