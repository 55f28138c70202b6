//! Stand-in for `thiserror` (declared by the circuit crate, not used in its code).
