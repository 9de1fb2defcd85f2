//! Stand-in: no log output in the simulator.
#[derive(Debug, Default, Clone)]
pub struct EnvFilter;
impl EnvFilter {
    pub fn from_default_env() -> Self {
        EnvFilter
    }
    pub fn new(_: impl AsRef<str>) -> Self {
        EnvFilter
    }
    pub fn try_from_default_env() -> Result<Self, std::convert::Infallible> {
        Ok(EnvFilter)
    }
}
pub mod fmt {
    #[derive(Default)]
    pub struct SubscriberBuilder;
    impl SubscriberBuilder {
        pub fn with_env_filter(self, _: impl Into<crate::EnvFilter>) -> Self {
            self
        }
        pub fn with_target(self, _: bool) -> Self {
            self
        }
        pub fn with_file(self, _: bool) -> Self {
            self
        }
        pub fn with_line_number(self, _: bool) -> Self {
            self
        }
        pub fn with_ansi(self, _: bool) -> Self {
            self
        }
        pub fn with_level(self, _: bool) -> Self {
            self
        }
        pub fn with_thread_ids(self, _: bool) -> Self {
            self
        }
        pub fn with_writer<W>(self, _: W) -> Self {
            self
        }
        pub fn without_time(self) -> Self {
            self
        }
        pub fn compact(self) -> Self {
            self
        }
        pub fn pretty(self) -> Self {
            self
        }
        pub fn init(self) {}
        pub fn try_init(self) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
            Ok(())
        }
    }
    pub fn init() {}
}
pub fn fmt() -> fmt::SubscriberBuilder {
    fmt::SubscriberBuilder
}
