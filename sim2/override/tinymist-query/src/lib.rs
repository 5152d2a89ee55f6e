//! The queries, of which only what they see is computed: the main file, the
//! text of the file they are about and the byte their position stands for.
//! The conversions of positions, paths and diagnostics are the product's.
#![allow(unused_imports)]

pub use analysis::{ColorTheme, CompletionFeat, LocalContext, LocalContextGuard, LspWorldExt};
pub use check::*;
pub use diagnostics::*;
pub use lsp_typst_boundary::*;

pub mod analysis;
pub mod docs;
pub mod package;

mod check;
mod diagnostics;
mod lsp_typst_boundary;
mod prelude;

use prelude::*;
pub use lsp_types::{Position as LspPosition, Range as LspRange};
use serde::{Deserialize, Serialize};
use tinymist_project::ProjectTask;
use tinymist_world::debug_loc::SourceSpanOffset;
use tinymist_project::LspWorld;
use typst::foundations::Dict;

/// What is in the line of a page that was clicked on.
pub fn jump_from_click(
    _world: &LspWorld,
    frame: &typst::layout::Frame,
    at: typst::layout::Point,
) -> Option<(SourceSpanOffset, SourceSpanOffset)> {
    let span = *frame.0.get(at.y.to_pt() as usize)?;
    let at = SourceSpanOffset { span, offset: at.x.to_pt() as usize };
    Some((at, at))
}
/// The lines of the document that come from the line the cursor is in.
pub fn jump_from_cursor(
    doc: &tinymist_std::typst::TypstDocument,
    source: &Source,
    cursor: usize,
) -> Vec<typst::layout::Position> {
    let tinymist_std::typst::TypstDocument::Paged(doc) = doc else { return vec![] };
    let Some(node) = typst::syntax::LinkedNode::new(source.root()).leaf_at(cursor) else { return vec![] };
    let lines = doc.pages[0].frame.0.iter().enumerate().filter(|(_, s)| **s == node.span());
    let x = cursor.saturating_sub(node.offset()) as f64;
    lines
        .map(|(i, _)| typst::layout::Position {
            page: std::num::NonZeroUsize::MIN,
            point: typst::layout::Point::new(typst::layout::Abs(x), typst::layout::Abs(i as f64)),
        })
        .collect()
}

pub type FramePosition = typst::layout::Position;

pub trait SyntaxRequest {
    type Response;
    fn request(self, source: &Source, positing_encoding: PositionEncoding) -> Option<Self::Response>;
}
pub trait SemanticRequest {
    type Response;
    fn request(self, ctx: &mut LocalContext) -> Option<Self::Response>;
}
pub trait StatefulRequest {
    type Response;
    fn request(self, ctx: &mut LocalContext, graph: LspComputeGraph) -> Option<Self::Response>;
}

/// What a query saw.
fn seen(name: &str, ctx: &LocalContext, path: Option<&Path>, at: Option<LspPosition>) -> JsonValue {
    let main = ctx.world.main();
    let src = path.map(|p| ctx.source_by_path(p));
    let byte = match (&src, at) {
        (Some(Ok(s)), Some(p)) => ctx.to_typst_pos(p, s).map(|b| (b, to_lsp_range(b..b, s, PositionEncoding::Utf16))),
        _ => None,
    };
    let main_text = ctx.world.source(main);
    json!({
        "query": name,
        "main": format!("{:?}", main.vpath()),
        "mainText": main_text.as_ref().ok().map(|s| s.text()),
        "text": src.as_ref().and_then(|s| s.as_ref().ok()).map(|s| s.text()),
        "byte": byte.map(|b| b.0),
    })
}

macro_rules! query {
    ($($kind:ident $name:ident $Req:ident { $($f:ident: $t:ty),* } [$path:expr, $at:expr];)*) => { $(
        #[derive(Debug, Clone)]
        pub struct $Req {
            $(pub $f: $t),*
        }
        query!(@ $kind $name $Req [$path, $at]);
    )* };
    (@ syntax $name:ident $Req:ident [$path:expr, $at:expr]) => {
        impl SyntaxRequest for $Req {
            type Response = JsonValue;
            fn request(self, source: &Source, enc: PositionEncoding) -> Option<JsonValue> {
                let at: fn(&$Req) -> Option<LspPosition> = $at;
                let byte = at(&self).and_then(|p| to_typst_position(p, enc, source));
                Some(json!({ "query": stringify!($name), "text": source.text(), "byte": byte }))
            }
        }
    };
    (@ semantic $name:ident $Req:ident [$path:expr, $at:expr]) => {
        impl SemanticRequest for $Req {
            type Response = JsonValue;
            fn request(self, ctx: &mut LocalContext) -> Option<JsonValue> {
                let path: fn(&$Req) -> Option<&Path> = $path;
                let at: fn(&$Req) -> Option<LspPosition> = $at;
                Some(seen(stringify!($name), ctx, path(&self), at(&self)))
            }
        }
    };
    (@ stateful $name:ident $Req:ident [$path:expr, $at:expr]) => {
        impl StatefulRequest for $Req {
            type Response = JsonValue;
            fn request(self, ctx: &mut LocalContext, graph: LspComputeGraph) -> Option<JsonValue> {
                let path: fn(&$Req) -> Option<&Path> = $path;
                let at: fn(&$Req) -> Option<LspPosition> = $at;
                let mut v = seen(stringify!($name), ctx, path(&self), at(&self));
                v["graph"] = json!(graph.world().source(graph.world().main()).ok().map(|s| s.text().to_owned()));
                Some(v)
            }
        }
    };
}
query! {
    stateful GotoDefinition GotoDefinitionRequest { path: PathBuf, position: LspPosition } [|s| Some(&s.path), |s| Some(s.position)];
    semantic GotoDeclaration GotoDeclarationRequest { path: PathBuf, position: LspPosition } [|s| Some(&s.path), |s| Some(s.position)];
    stateful References ReferencesRequest { path: PathBuf, position: LspPosition } [|s| Some(&s.path), |s| Some(s.position)];
    stateful Hover HoverRequest { path: PathBuf, position: LspPosition } [|s| Some(&s.path), |s| Some(s.position)];
    semantic DocumentHighlight DocumentHighlightRequest { path: PathBuf, position: LspPosition } [|s| Some(&s.path), |s| Some(s.position)];
    stateful PrepareRename PrepareRenameRequest { path: PathBuf, position: LspPosition } [|s| Some(&s.path), |s| Some(s.position)];
    semantic SignatureHelp SignatureHelpRequest { path: PathBuf, position: LspPosition } [|s| Some(&s.path), |s| Some(s.position)];
    syntax FoldingRange FoldingRangeRequest { path: PathBuf, line_folding_only: bool } [|s| Some(&s.path), |_| None];
    syntax SelectionRange SelectionRangeRequest { path: PathBuf, positions: Vec<LspPosition> } [|s| Some(&s.path), |s| s.positions.first().copied()];
    syntax DocumentSymbol DocumentSymbolRequest { path: PathBuf } [|s| Some(&s.path), |_| None];
    semantic SemanticTokensFull SemanticTokensFullRequest { path: PathBuf } [|s| Some(&s.path), |_| None];
    semantic SemanticTokensDelta SemanticTokensDeltaRequest { path: PathBuf, previous_result_id: String } [|s| Some(&s.path), |_| None];
    semantic DocumentColor DocumentColorRequest { path: PathBuf } [|s| Some(&s.path), |_| None];
    semantic DocumentLink DocumentLinkRequest { path: PathBuf } [|s| Some(&s.path), |_| None];
    semantic CodeLens CodeLensRequest { path: PathBuf } [|s| Some(&s.path), |_| None];
    stateful DocumentMetrics DocumentMetricsRequest { path: PathBuf } [|s| Some(&s.path), |_| None];
    semantic InlayHint InlayHintRequest { path: PathBuf, range: LspRange } [|s| Some(&s.path), |s| Some(s.range.start)];
    semantic CodeAction CodeActionRequest { path: PathBuf, range: LspRange } [|s| Some(&s.path), |s| Some(s.range.start)];
    syntax OnEnter OnEnterRequest { path: PathBuf, range: LspRange } [|s| Some(&s.path), |s| Some(s.range.start)];
    stateful Completion CompletionRequest { path: PathBuf, position: LspPosition, explicit: bool, trigger_character: Option<char> } [|s| Some(&s.path), |s| Some(s.position)];
    stateful Rename RenameRequest { path: PathBuf, position: LspPosition, new_name: String } [|s| Some(&s.path), |s| Some(s.position)];
    semantic Symbol SymbolRequest { pattern: Option<String> } [|_| None, |_| None];
    stateful WillRenameFiles WillRenameFilesRequest { paths: Vec<(PathBuf, PathBuf)> } [|_| None, |_| None];
    semantic WorkspaceLabel WorkspaceLabelRequest {} [|_| None, |_| None];
    semantic InteractCodeContext InteractCodeContextRequest { path: PathBuf, query: Vec<Option<InteractCodeContextQuery>> } [|s| Some(&s.path), |_| None];
}
#[derive(Debug, Clone, Deserialize)]
#[serde(tag = "kind", rename_all = "camelCase")]
pub enum InteractCodeContextQuery {
    ModeAt { position: LspPosition },
    StyleAt { position: LspPosition, style: Vec<String> },
}
#[derive(Debug, Clone)]
pub struct ColorPresentationRequest {
    pub path: PathBuf,
    pub color: lsp_types::Color,
    pub range: LspRange,
}
impl ColorPresentationRequest {
    pub fn request(self) -> Option<JsonValue> {
        Some(json!([]))
    }
}
#[derive(Debug, Clone)]
pub struct OnExportRequest {
    pub path: PathBuf,
    pub task: ProjectTask,
    pub open: bool,
}
#[derive(Debug, Clone)]
pub struct FormattingRequest {
    pub path: PathBuf,
}
#[derive(Debug, Clone)]
pub struct ServerInfoRequest {}
#[derive(Debug, Clone, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ServerInfoResponse {
    pub root: Option<PathBuf>,
    pub font_paths: Vec<PathBuf>,
    pub inputs: Dict,
    pub stats: HashMap<String, String>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum FoldRequestFeature {
    PinnedFirst,
    Unique,
    Mergeable,
    ContextFreeUnique,
}

macro_rules! requests {
    ($($name:ident($Req:ident) $fold:ident $path:expr;)*) => {
        #[derive(Debug, Clone)]
        pub enum CompilerQueryRequest {
            $($name($Req)),*
        }
        impl From<&CompilerQueryRequest> for &'static str {
            fn from(q: &CompilerQueryRequest) -> &'static str {
                match q {
                    $(CompilerQueryRequest::$name(..) => stringify!($name)),*
                }
            }
        }
        impl CompilerQueryRequest {
            pub fn fold_feature(&self) -> FoldRequestFeature {
                match self {
                    $(Self::$name(..) => FoldRequestFeature::$fold),*
                }
            }
            pub fn associated_path(&self) -> Option<&Path> {
                match self {
                    $(Self::$name(req) => {
                        let path: fn(&$Req) -> Option<&Path> = $path;
                        path(req)
                    }),*
                }
            }
        }
    };
}
requests! {
    OnExport(OnExportRequest) Mergeable |_| None;
    Hover(HoverRequest) PinnedFirst |r| Some(&r.path);
    GotoDefinition(GotoDefinitionRequest) PinnedFirst |r| Some(&r.path);
    GotoDeclaration(GotoDeclarationRequest) PinnedFirst |r| Some(&r.path);
    References(ReferencesRequest) PinnedFirst |r| Some(&r.path);
    InlayHint(InlayHintRequest) Unique |r| Some(&r.path);
    DocumentColor(DocumentColorRequest) PinnedFirst |r| Some(&r.path);
    DocumentLink(DocumentLinkRequest) PinnedFirst |r| Some(&r.path);
    DocumentHighlight(DocumentHighlightRequest) PinnedFirst |r| Some(&r.path);
    ColorPresentation(ColorPresentationRequest) ContextFreeUnique |r| Some(&r.path);
    CodeAction(CodeActionRequest) Unique |r| Some(&r.path);
    CodeLens(CodeLensRequest) Unique |r| Some(&r.path);
    Completion(CompletionRequest) Mergeable |r| Some(&r.path);
    SignatureHelp(SignatureHelpRequest) PinnedFirst |r| Some(&r.path);
    Rename(RenameRequest) Mergeable |r| Some(&r.path);
    WillRenameFiles(WillRenameFilesRequest) Mergeable |_| None;
    PrepareRename(PrepareRenameRequest) Mergeable |r| Some(&r.path);
    DocumentSymbol(DocumentSymbolRequest) ContextFreeUnique |r| Some(&r.path);
    Symbol(SymbolRequest) Mergeable |_| None;
    SemanticTokensFull(SemanticTokensFullRequest) PinnedFirst |r| Some(&r.path);
    SemanticTokensDelta(SemanticTokensDeltaRequest) PinnedFirst |r| Some(&r.path);
    Formatting(FormattingRequest) ContextFreeUnique |r| Some(&r.path);
    FoldingRange(FoldingRangeRequest) ContextFreeUnique |r| Some(&r.path);
    SelectionRange(SelectionRangeRequest) ContextFreeUnique |r| Some(&r.path);
    InteractCodeContext(InteractCodeContextRequest) PinnedFirst |r| Some(&r.path);
    OnEnter(OnEnterRequest) ContextFreeUnique |r| Some(&r.path);
    DocumentMetrics(DocumentMetricsRequest) PinnedFirst |r| Some(&r.path);
    WorkspaceLabel(WorkspaceLabelRequest) Mergeable |_| None;
    ServerInfo(ServerInfoRequest) Mergeable |_| None;
}

#[derive(Debug, Clone, Serialize, Deserialize)]
#[serde(untagged)]
pub enum CompilerQueryResponse {
    OnExport(Option<PathBuf>),
    Hover(Option<JsonValue>),
    GotoDefinition(Option<JsonValue>),
    GotoDeclaration(Option<JsonValue>),
    References(Option<JsonValue>),
    InlayHint(Option<JsonValue>),
    DocumentColor(Option<JsonValue>),
    DocumentLink(Option<JsonValue>),
    DocumentHighlight(Option<JsonValue>),
    ColorPresentation(Option<JsonValue>),
    CodeAction(Option<JsonValue>),
    CodeLens(Option<JsonValue>),
    Completion(Option<JsonValue>),
    SignatureHelp(Option<JsonValue>),
    PrepareRename(Option<JsonValue>),
    Rename(Option<JsonValue>),
    WillRenameFiles(Option<JsonValue>),
    DocumentSymbol(Option<JsonValue>),
    Symbol(Option<JsonValue>),
    WorkspaceLabel(Option<JsonValue>),
    SemanticTokensFull(Option<JsonValue>),
    SemanticTokensDelta(Option<JsonValue>),
    Formatting(Option<JsonValue>),
    FoldingRange(Option<JsonValue>),
    SelectionRange(Option<JsonValue>),
    InteractCodeContext(Option<JsonValue>),
    OnEnter(Option<JsonValue>),
    DocumentMetrics(Option<JsonValue>),
    ServerInfo(Option<HashMap<String, ServerInfoResponse>>),
}
