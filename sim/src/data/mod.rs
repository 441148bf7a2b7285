pub mod aliases;
pub mod bidi;
pub mod blocks;
pub mod brackets;
pub mod gcb;
pub mod idna;
pub mod norm;
pub mod values;
pub mod wb;
