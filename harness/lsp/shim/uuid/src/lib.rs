use std::sync::atomic::{AtomicU64, Ordering};
static NEXT: AtomicU64 = AtomicU64::new(1);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Uuid(u64);
impl Uuid {
    pub fn new_v4() -> Self {
        Uuid(NEXT.fetch_add(1, Ordering::Relaxed))
    }
}
impl std::fmt::Display for Uuid {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "00000000-0000-4000-8000-{:012x}", self.0)
    }
}
