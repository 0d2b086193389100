//! Builds pomelo (as the drivers see it) from the working tree of /repo.
pub use pomelo;
