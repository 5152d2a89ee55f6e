//! Only the conversions between positions.
pub mod location;
