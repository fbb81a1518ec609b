mod dynv;
mod fmts;
pub use dynv::*;
pub use fmts::*;
pub use musli;
pub mod refm;
