//! Shared machinery of the model-checking harness: reporting, reference arithmetic,
//! alphabets, and uniform access to the library's types.
pub mod codec;
pub mod ec;
pub mod ext;
pub mod fields;
pub mod h2c;
pub mod iso;
pub mod pair;
pub mod rep;
pub mod tape;
pub mod tower;

pub use codec::*;
pub use ec::*;
pub use ext::*;
pub use fields::*;
pub use h2c::*;
pub use num_bigint::BigUint;
pub use num_integer::Integer;
pub use num_traits::{One, Zero};
pub use pair::*;
pub use rep::*;
pub use tape::*;
pub use tower::*;
