pub mod binref;
#[cfg(feature = "zoo")]
pub mod checks;
pub mod engine;
pub mod gen;
pub mod lexref;
pub mod looks;
pub mod rfc;
pub mod schema;
pub mod shapes;
pub mod textref;
pub mod tomlref;
#[cfg(feature = "zoo")]
pub mod types;
