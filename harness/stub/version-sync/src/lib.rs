//! Empty stand-in, see ../../Cargo.toml.
