//! Stand-in (the real crate is not available offline). Never sends anything.
#[derive(Debug)]
pub enum Error { Unavailable }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("unavailable") } }
