pub use socket2_06::*;
