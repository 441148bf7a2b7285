pub mod domain;
pub mod grapheme;
pub mod iters;
pub mod table;
pub mod text;
pub mod norm;
pub mod chars;
pub mod par;
pub mod display;
pub mod writers;
pub mod edit;
pub mod exchange;
pub mod keys;
pub mod layout;
pub mod level;
pub mod mixed;
pub mod shards;
pub mod spans;
pub mod reports;
pub mod sysos;
pub mod scripts;
pub mod gen;
pub mod tools;
#[cfg(feature = "threads")]
pub mod threads;
