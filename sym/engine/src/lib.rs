pub mod field;
pub mod group;
pub mod hide;
pub mod oracle;
pub mod run;
pub mod smt;
pub mod state;
pub use ark_bls12_381::Fr as Fr381;
pub use field::SymF;
pub use group::*;
pub use oracle::*;
pub use run::*;
pub use smt::*;
pub use state::*;
