//! Tools that only compute a value from a document or a package.
pub mod ast {
    pub struct AstRepr(pub typst::syntax::LinkedNode, pub Option<std::ops::Range<usize>>);
    impl std::fmt::Display for AstRepr {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "ast {:?}", self.1)
        }
    }
}
pub mod package {
    use std::path::PathBuf;
    use tinymist_project::LspWorld;
    use tinymist_std::error::prelude::*;
    use typst::syntax::package::PackageSpec;

    #[derive(Debug, Clone)]
    pub enum TemplateSource {
        Package(PackageSpec),
    }
    #[derive(Debug, Clone)]
    pub struct InitTask {
        pub tmpl: TemplateSource,
        pub dir: Option<PathBuf>,
    }
    pub fn init(_w: &LspWorld, _t: InitTask) -> Result<PathBuf> {
        bail!("no templates")
    }
    pub fn get_entry(_w: &LspWorld, _t: TemplateSource) -> Result<typst::foundations::Bytes> {
        bail!("no templates")
    }
}
pub mod word_count {
    use serde::{Deserialize, Serialize};
    use tinymist_std::typst::TypstDocument;
    use tinymist_task::TextExport;

    #[derive(Debug, Clone, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct WordsCount {
        pub words: usize,
        pub chars: usize,
        pub spaces: usize,
        pub cjk_chars: usize,
    }
    /// Only the characters are counted.
    pub fn word_count(doc: &TypstDocument) -> WordsCount {
        let content = TextExport::run_on_doc(doc).unwrap_or_default();
        WordsCount { words: 0, chars: content.chars().count(), spaces: 0, cjk_chars: 0 }
    }
}
pub mod preview;
pub mod project;
