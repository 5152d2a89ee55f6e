pub use std::collections::HashMap;
pub use std::iter;
pub use std::ops::Range;
pub use std::path::{Path, PathBuf};
pub use std::sync::{Arc, LazyLock};

pub use ecow::EcoVec;
pub use lsp_types::{
    Diagnostic, DiagnosticRelatedInformation, DiagnosticSeverity, Location as LspLocation, Position as LspPosition, Url,
};
pub use serde_json::{json, Value as JsonValue};
pub use tinymist_project::LspComputeGraph;
pub use typst::diag::{EcoString, Tracepoint};
pub use typst::syntax::{FileId as TypstFileId, Source, Spanned};
pub use typst::World;

pub use crate::analysis::LocalContext;
pub use crate::lsp_typst_boundary::{
    path_to_url, to_lsp_position, to_lsp_range, to_typst_position, to_typst_range, LspRange, PositionEncoding,
};
pub use crate::{SemanticRequest, StatefulRequest, SyntaxRequest};
