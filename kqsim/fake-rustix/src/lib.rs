//! rustix, with a simulated kqueue and a simulated event port in the place of the real ones.
pub use real::*;

pub mod event {
    pub mod kqueue;
    pub mod port;
    pub use real::event::*;
}

pub mod sim;
