mod env;
mod file;
pub mod http;
mod model;
mod parse;
mod runtime;
pub mod spec;
