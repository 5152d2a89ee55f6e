//! The fonts: resolving and loading as in /repo; no search, no profiles.
pub(crate) mod loader;
pub(crate) mod resolver;
pub(crate) mod slot;

pub use loader::*;
pub use resolver::*;
pub use slot::*;

/// Finds no font.
pub mod system {
    use super::FontResolverImpl;
    use tinymist_std::error::prelude::*;

    pub struct SystemFontSearcher {
        paths: Vec<std::path::PathBuf>,
    }
    impl SystemFontSearcher {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            Self { paths: vec![] }
        }
        pub fn resolve_opts(&mut self, opts: crate::config::CompileFontOpts) -> Result<()> {
            self.paths = opts.font_paths;
            Ok(())
        }
        pub fn build(self) -> FontResolverImpl {
            FontResolverImpl::new(self.paths, typst::text::FontBook::new(), vec![])
        }
    }
}
