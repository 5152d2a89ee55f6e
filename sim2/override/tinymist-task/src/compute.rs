//! The exporters: each makes the text of the document, marked with the format.
#![allow(missing_docs)]

use std::sync::Arc;

use tinymist_std::error::prelude::*;
use tinymist_std::typst::{TypstDocument, TypstPagedDocument};
use tinymist_world::{CompilerFeat, ExportComputation, WorldComputeGraph};
use typst::foundations::Bytes;
use typst::layout::Abs;

use crate::model::ExportPdfTask;
use crate::{ExportTextTask, ExportTransform};

pub struct PdfExport;
impl<F: CompilerFeat> ExportComputation<F, TypstPagedDocument> for PdfExport {
    type Output = Bytes;
    type Config = ExportPdfTask;
    fn run(
        _graph: &Arc<WorldComputeGraph<F>>,
        doc: &Arc<TypstPagedDocument>,
        _config: &ExportPdfTask,
    ) -> Result<Bytes> {
        Ok(Bytes::from_string(format!("pdf:{}%end", doc.pages[0].text)))
    }
}

pub struct TextExport;
impl TextExport {
    pub fn run_on_doc(doc: &TypstDocument) -> Result<String> {
        Ok(match doc {
            TypstDocument::Paged(d) => d.pages[0].text.clone(),
            TypstDocument::Html(d) => d.text.clone(),
        })
    }
}
impl<F: CompilerFeat> ExportComputation<F, TypstPagedDocument> for TextExport {
    type Output = String;
    type Config = ExportTextTask;
    fn run(_g: &Arc<WorldComputeGraph<F>>, doc: &Arc<TypstPagedDocument>, _config: &ExportTextTask) -> Result<String> {
        Self::run_on_doc(&TypstDocument::Paged(doc.clone()))
    }
}

/// Whether only the first page is asked for, without the check of the ranges.
pub fn get_page_selection(task: &crate::ExportTask) -> Result<(bool, Abs)> {
    let first = task.transform.iter().any(|t| matches!(t, ExportTransform::Pages { .. }));
    Ok((first, Abs::pt(0.)))
}
