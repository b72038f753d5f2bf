//! Stand-in for `tracing-subscriber`: logs are discarded.
pub struct Registry;
pub fn registry() -> Registry {
    Registry
}
pub mod layer {
    pub trait SubscriberExt: Sized {
        fn with<L>(self, _: L) -> Self {
            self
        }
    }
    impl SubscriberExt for super::Registry {}
}
pub mod util {
    #[derive(Debug)]
    pub struct TryInitError;
    impl std::fmt::Display for TryInitError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "already initialised")
        }
    }
    impl std::error::Error for TryInitError {}
    pub trait SubscriberInitExt: Sized {
        fn init(self) {}
        fn try_init(self) -> Result<(), TryInitError> {
            Ok(())
        }
    }
    impl SubscriberInitExt for super::Registry {}
}
pub mod prelude {
    pub use super::layer::SubscriberExt as _;
    pub use super::util::SubscriberInitExt as _;
}
pub mod fmt {
    pub struct Layer;
    pub fn layer() -> Layer {
        Layer
    }
    impl Layer {
        pub fn with_target(self, _: bool) -> Self {
            self
        }
        pub fn with_ansi(self, _: bool) -> Self {
            self
        }
        pub fn with_writer<W>(self, _: W) -> Self {
            self
        }
        pub fn compact(self) -> Self {
            self
        }
    }
    pub fn init() {}
}
pub mod filter {
    pub struct Directive;
    impl From<tracing::level_filters::LevelFilter> for Directive {
        fn from(_: tracing::level_filters::LevelFilter) -> Self {
            Directive
        }
    }
    impl From<tracing::Level> for Directive {
        fn from(_: tracing::Level) -> Self {
            Directive
        }
    }
    impl std::str::FromStr for Directive {
        type Err = std::convert::Infallible;
        fn from_str(_: &str) -> Result<Self, Self::Err> {
            Ok(Directive)
        }
    }
    #[derive(Default)]
    pub struct EnvFilter;
    pub struct Builder;
    impl EnvFilter {
        pub fn builder() -> Builder {
            Builder
        }
        pub fn new(_: impl AsRef<str>) -> Self {
            EnvFilter
        }
        pub fn from_default_env() -> Self {
            EnvFilter
        }
        pub fn try_from_default_env() -> Result<Self, std::convert::Infallible> {
            Ok(EnvFilter)
        }
        pub fn add_directive(self, _: Directive) -> Self {
            self
        }
    }
    impl Builder {
        pub fn with_default_directive(self, _: Directive) -> Self {
            self
        }
        pub fn from_env_lossy(self) -> EnvFilter {
            EnvFilter
        }
        pub fn from_env(self) -> Result<EnvFilter, std::convert::Infallible> {
            Ok(EnvFilter)
        }
    }
    pub use tracing::level_filters::LevelFilter;
}
pub use filter::EnvFilter;
