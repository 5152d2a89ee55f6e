//! No highlighting: it is a function of the syntax tree alone.
use typst::syntax::Source;

#[derive(Debug, Clone, Copy)]
pub enum OffsetEncoding {
    Utf8,
    Utf16,
}
pub struct SemanticToken;
pub struct SemanticTokensLegend;
pub fn get_semantic_tokens_full(_: &Source, _: OffsetEncoding) -> Vec<SemanticToken> {
    vec![]
}
pub fn get_semantic_tokens_legend() -> SemanticTokensLegend {
    SemanticTokensLegend
}
