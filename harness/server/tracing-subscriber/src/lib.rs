//! Nothing is logged.
pub struct Nothing;
impl Nothing {
    pub fn event_format<T>(self, _: T) -> Self { self }
    pub fn with_env_filter<T>(self, _: T) -> Self { self }
    pub fn with_timer<T>(self, _: T) -> Self { self }
    pub fn with_max_level<T>(self, _: T) -> Self { self }
    pub fn with_target(self, _: bool) -> Self { self }
    pub fn with_ansi(self, _: bool) -> Self { self }
    pub fn pretty(self) -> Self { self }
    pub fn compact(self) -> Self { self }
    pub fn finish(self) -> Self { self }
}
pub struct EnvFilter;
impl EnvFilter { pub fn from_default_env() -> Self { EnvFilter } pub fn new<T>(_: T) -> Self { EnvFilter } }
pub fn fmt() -> Nothing { Nothing }
pub fn registry() -> Nothing { Nothing }
pub mod fmt {
    pub fn layer() -> super::Nothing { super::Nothing }
    pub mod time { pub struct UtcTime; impl UtcTime { pub fn rfc_3339() -> Self { UtcTime } } }
    pub mod format { #[derive(Default)] pub struct Format; impl Format { pub fn pretty(self) -> Self { self } pub fn compact(self) -> Self { self } } }
}
pub mod layer { pub trait SubscriberExt: Sized { fn with<L>(self, _: L) -> Self { self } } impl SubscriberExt for super::Nothing {} }
pub mod util { pub trait SubscriberInitExt: Sized { fn init(self) {} } impl SubscriberInitExt for super::Nothing {} }
pub mod prelude { pub use crate::layer::SubscriberExt; pub use crate::util::SubscriberInitExt; }
