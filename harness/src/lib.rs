pub mod cli;
pub mod dict;
pub mod engine;
pub mod gen;
pub mod hist;
pub mod io;
pub mod json;
pub mod laws;
pub mod model;
pub mod ops;
pub mod props;
pub mod repo;
pub mod spec;
pub mod tree;
pub mod ver;

/// The directory of this framework (check.sh sets it; the default is where it is developed).
pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}
