pub mod bidi;
pub mod names;
pub mod norm;
pub mod uax29;
pub mod uts46;
