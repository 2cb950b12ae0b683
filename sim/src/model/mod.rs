pub mod cli;
pub mod dbus;
pub mod jchar;
pub mod jgen;
pub mod jtok;
pub mod rng;
pub mod sha;
