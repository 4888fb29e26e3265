pub mod driver;
pub mod interpose;
pub mod net;
pub mod rt;
pub use rt::{choose, note, set_name};
