pub mod map;
pub mod stream;
