//! World implementation of typst for tinymist (without the system world).
pub use tinymist_world as base;
pub use tinymist_world::args::*;
pub use tinymist_world::config::CompileFontOpts;
pub use tinymist_world::entry::*;
pub use tinymist_world::{font, package, vfs};
pub use tinymist_world::{
    with_main, CompilerUniverse, CompilerWorld, DiagnosticFormat, EntryOpts, EntryState,
    RevisingUniverse, SourceWorld, TaskInputs,
};
pub mod system {
    use tinymist_std::Result;
    /// Nothing is printed.
    pub fn print_diagnostics<W, I>(_w: &W, _d: I, _f: tinymist_world::DiagnosticFormat) -> Result<()> {
        Ok(())
    }
}
