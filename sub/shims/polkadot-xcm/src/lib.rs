pub use xcm::*;
