//! tracing, with the attribute that needs a crate that is not available here, and with as many global subscribers as wanted.
pub use attrs::instrument;
pub use real::*;

pub mod subscriber {
    pub use real::subscriber::*;
    use std::cell::{Cell, RefCell};

    thread_local! {
        /// The subscriber that was last made the global one by this thread.
        pub static CURRENT: RefCell<Option<real::Dispatch>> = const { RefCell::new(None) };
        /// Whether it gets what this thread logs.
        pub static LISTEN: Cell<bool> = const { Cell::new(false) };
        static GUARD: Cell<Option<real::dispatcher::DefaultGuard>> = const { Cell::new(None) };
    }
    pub fn set_global_default<S>(subscriber: S) -> Result<(), SetGlobalDefaultError>
    where
        S: real::Subscriber + Send + Sync + 'static,
    {
        let dispatch = real::Dispatch::new(subscriber);
        CURRENT.with(|it| *it.borrow_mut() = Some(dispatch.clone()));
        if LISTEN.get() {
            // the one before goes first, as it would put back what was there before it
            drop(GUARD.take());
            GUARD.set(Some(real::dispatcher::set_default(&dispatch)));
        }
        Ok(())
    }
}
