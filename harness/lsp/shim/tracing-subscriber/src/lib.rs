//! tracing_subscriber, with the one timer that needs a crate that is not available here.
pub use real::*;
pub mod fmt {
    pub use real::fmt::*;
    pub mod time {
        pub use real::fmt::time::*;
        #[derive(Clone, Debug, Default)]
        pub struct LocalTime;
        impl LocalTime {
            pub fn rfc_3339() -> Self {
                LocalTime
            }
        }
        impl FormatTime for LocalTime {
            fn format_time(&self, w: &mut real::fmt::format::Writer<'_>) -> std::fmt::Result {
                write!(w, "2000-01-01T00:00:00Z")
            }
        }
    }
}
