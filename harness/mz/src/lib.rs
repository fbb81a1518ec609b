//! Properties of the formats over types and values made at run time.
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c06;
pub mod c07;
pub mod c13;
pub mod formats;
pub mod js;
