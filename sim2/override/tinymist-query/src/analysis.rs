//! The context of a query, without the analyzers.
use std::path::Path;
use std::sync::Arc;

use ecow::{eco_format, EcoVec};
use lsp_types::Url;
use serde::Deserialize;
use tinymist_project::{LspComputeGraph, LspWorld, TaskInputs, TaskWhen};
use tinymist_std::error::prelude::*;
use tinymist_std::{ImmutPath, typst::TypstDocument};
use tinymist_world::vfs::WorkspaceResolver;
use tinymist_world::{EntryReader, WorldDeps};
use typst::diag::{FileError, FileResult, SourceDiagnostic};
use typst::syntax::{FileId, Source, Span};
use typst::World;

use crate::lsp_typst_boundary::*;
use crate::{CompilerQueryRequest, CompilerQueryResponse, SemanticRequest, StatefulRequest};

pub trait LspWorldExt {
    fn file_id_by_path(&self, path: &Path) -> FileResult<FileId>;
    fn source_by_path(&self, path: &Path) -> FileResult<Source>;
    fn uri_for_id(&self, fid: FileId) -> FileResult<Url>;
    fn depended_files(&self) -> EcoVec<FileId>;
    fn depended_fs_paths(&self) -> EcoVec<ImmutPath>;
}
// The same as the product's.
impl LspWorldExt for LspWorld {
    fn file_id_by_path(&self, path: &Path) -> FileResult<FileId> {
        match self.id_for_path(path) {
            Some(id) => Ok(id),
            None => WorkspaceResolver::file_with_parent_root(path).ok_or_else(|| {
                let reason = eco_format!("invalid path: {path:?}");
                FileError::Other(Some(reason))
            }),
        }
    }
    fn source_by_path(&self, path: &Path) -> FileResult<Source> {
        self.source(self.file_id_by_path(path)?)
    }
    fn uri_for_id(&self, fid: FileId) -> Result<Url, FileError> {
        let res = path_res_to_url(self.path_for_id(fid)?);
        res.map_err(|err| FileError::Other(Some(eco_format!("convert to url: {err:?}"))))
    }
    fn depended_files(&self) -> EcoVec<FileId> {
        let mut deps = EcoVec::new();
        self.iter_dependencies(&mut |file_id| deps.push(file_id));
        deps
    }
    fn depended_fs_paths(&self) -> EcoVec<ImmutPath> {
        let mut deps = EcoVec::new();
        self.iter_dependencies(&mut |file_id| {
            if let Ok(path) = self.path_for_id(file_id) {
                deps.push(path.as_path().into());
            }
        });
        deps
    }
}
use tinymist_world::vfs::FileId as _VfsFileId;
const _: fn(_VfsFileId) -> FileId = |x| x;

#[derive(Debug, Clone, Default, PartialEq, Eq, Deserialize)]
#[serde(rename_all = "camelCase", default)]
pub struct CompletionFeat {
    pub trigger_on_snippet_placeholders: bool,
    pub trigger_suggest: bool,
    pub trigger_parameter_hints: bool,
    pub trigger_suggest_and_parameter_hints: bool,
    pub symbol: Option<String>,
    pub postfix: Option<bool>,
    pub postfix_ufcs: Option<bool>,
    pub postfix_ufcs_left: Option<bool>,
    pub postfix_ufcs_right: Option<bool>,
    pub postfix_snippets: Option<serde_json::Value>,
}
#[derive(Debug, Clone, Copy, Default)]
pub enum ColorTheme {
    #[default]
    Light,
    Dark,
}

pub trait PeriscopeProvider {
    fn periscope_at(
        &self,
        _ctx: &mut LocalContext,
        _doc: &TypstDocument,
        _pos: typst::layout::Position,
    ) -> Option<String> {
        None
    }
}

#[derive(Default, Clone)]
pub struct Analysis {
    pub position_encoding: PositionEncoding,
    pub allow_overlapping_token: bool,
    pub allow_multiline_token: bool,
    pub remove_html: bool,
    pub completion_feat: CompletionFeat,
    pub color_theme: ColorTheme,
    pub lint: TaskWhen,
    pub periscope: Option<Arc<dyn PeriscopeProvider + Send + Sync>>,
    pub tokens_caches: Arc<()>,
    pub workers: Arc<()>,
    pub caches: (),
    pub analysis_rev_cache: Arc<()>,
    pub stats: Arc<()>,
}
impl Analysis {
    pub fn enter(&self, world: LspWorld) -> LocalContextGuard {
        LocalContextGuard(LocalContext { world, position_encoding: self.position_encoding })
    }
    pub fn query_snapshot(
        self: Arc<Self>,
        snap: LspComputeGraph,
        _req: Option<&CompilerQueryRequest>,
    ) -> LspQuerySnapshot {
        LspQuerySnapshot { snap, analysis: self }
    }
    pub fn clear_cache(&self) {}
    pub fn report_query_stats(&self) -> String {
        String::new()
    }
    pub fn report_alloc_stats(&self) -> String {
        String::new()
    }
}

pub struct LspQuerySnapshot {
    pub snap: LspComputeGraph,
    analysis: Arc<Analysis>,
}
impl std::ops::Deref for LspQuerySnapshot {
    type Target = LspComputeGraph;
    fn deref(&self) -> &LspComputeGraph {
        &self.snap
    }
}
// The same as the product's, but for the lock of its caches.
impl LspQuerySnapshot {
    pub fn task(mut self, inputs: TaskInputs) -> Self {
        self.snap = self.snap.task(inputs);
        self
    }
    pub fn run_stateful<T: StatefulRequest>(
        self,
        query: T,
        wrapper: fn(Option<T::Response>) -> CompilerQueryResponse,
    ) -> Result<CompilerQueryResponse> {
        let graph = self.snap.clone();
        self.run_analysis(|ctx| query.request(ctx, graph)).map(wrapper)
    }
    pub fn run_semantic<T: SemanticRequest>(
        self,
        query: T,
        wrapper: fn(Option<T::Response>) -> CompilerQueryResponse,
    ) -> Result<CompilerQueryResponse> {
        self.run_analysis(|ctx| query.request(ctx)).map(wrapper)
    }
    pub fn run_analysis<T>(self, f: impl FnOnce(&mut LocalContextGuard) -> T) -> Result<T> {
        let world = self.snap.world().clone();
        let Some(..) = world.main_id() else {
            bail!("main file is not set");
        };
        let mut ctx = self.analysis.enter(world);
        Ok(f(&mut ctx))
    }
}

pub struct LocalContextGuard(LocalContext);
impl std::ops::Deref for LocalContextGuard {
    type Target = LocalContext;
    fn deref(&self) -> &LocalContext {
        &self.0
    }
}
impl std::ops::DerefMut for LocalContextGuard {
    fn deref_mut(&mut self) -> &mut LocalContext {
        &mut self.0
    }
}
pub struct LocalContext {
    pub world: LspWorld,
    position_encoding: PositionEncoding,
}
impl LocalContext {
    pub fn uri_for_id(&self, fid: FileId) -> Result<Url, FileError> {
        self.world.uri_for_id(fid)
    }
    pub fn source_by_id(&self, fid: FileId) -> FileResult<Source> {
        self.world.source(fid)
    }
    pub fn source_by_path(&self, path: &Path) -> FileResult<Source> {
        self.world.source_by_path(path)
    }
    pub fn to_lsp_range(&self, position: std::ops::Range<usize>, src: &Source) -> LspRange {
        to_lsp_range(position, src, self.position_encoding)
    }
    pub fn to_typst_pos(&self, position: LspPosition, src: &Source) -> Option<usize> {
        to_typst_position(position, self.position_encoding, src)
    }
    /// A lint for each line that says `#lint M`.
    pub fn lint(&self, source: &Source) -> EcoVec<SourceDiagnostic> {
        let lines = source.text().lines().enumerate();
        lines
            .filter_map(|(n, l)| {
                let m = l.strip_prefix("#lint ")?;
                Some(SourceDiagnostic::warning(Span::line(source.id(), n), m))
            })
            .collect()
    }
}

macro_rules! token {
    ($name:ident, $lsp:ident) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum $name {
            None,
            Some,
        }
        impl strum::IntoEnumIterator for $name {
            fn iter() -> std::vec::IntoIter<Self> {
                vec![$name::None, $name::Some].into_iter()
            }
        }
        impl From<$name> for lsp_types::$lsp {
            fn from(t: $name) -> Self {
                lsp_types::$lsp::new(if t == $name::None { "none" } else { "some" })
            }
        }
    };
}
token!(TokenType, SemanticTokenType);
token!(Modifier, SemanticTokenModifier);
