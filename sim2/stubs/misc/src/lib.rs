//! Stands in for the crates the server names that are not available: reflexo,
//! reflexo-typst, the exporters, itertools, strum, regex, ... Under each of
//! those names the parts in use are here.

// reflexo, reflexo-typst: re-exports of the tinymist crates
pub use ecow;
pub use tinymist_std::*;
pub use tinymist_std::typst::{self as doc, TypstDocument};
pub use tinymist_task::*;
pub use tinymist_world::{debug_loc, vfs, CompilationTask, DiagnosticFormat, ExportComputation, WorldComputeGraph};
pub use ::typst::foundations::{Bytes, Dict as TypstDict};
pub use ::typst::utils::LazyHash;
pub mod diag {
    /// Nothing is printed.
    pub fn print_diagnostics<W, I>(_w: &W, _d: I, _f: tinymist_world::DiagnosticFormat) -> Result<(), String> {
        Ok(())
    }
}
pub mod typst {
    pub mod prelude {
        pub use ecow::{eco_vec, EcoVec};
    }
}
pub mod query {
    pub fn retrieve<W>(_w: &W, _s: &str, _d: &crate::TypstDocument) -> Result<Vec<Content>, ecow::EcoString> {
        Ok(vec![])
    }
    #[derive(Clone)]
    pub struct Content;
    impl Content {
        pub fn get_by_name(&self, _n: &str) -> Result<::typst::foundations::Value, ()> {
            Err(())
        }
    }
    impl ::typst::foundations::IntoValue for Content {
        fn into_value(self) -> ::typst::foundations::Value {
            ::typst::foundations::Value::None
        }
    }
}

// the exporters: the text of the document, marked with the format
use ::typst::html::HtmlDocument;
use ::typst::layout::{Abs, Page, PagedDocument};
pub struct DefaultExportFeature;
pub fn render_svg_html<F>(d: &PagedDocument) -> String {
    format!("svg-html:{}%end", d.pages[0].text)
}
pub fn svg(p: &Page) -> String {
    format!("svg:{}%end", p.text)
}
pub fn svg_merged(d: &PagedDocument, _gap: Abs) -> String {
    format!("svg:{}%end", d.pages[0].text)
}
pub fn html(d: &HtmlDocument) -> Result<String, String> {
    Ok(format!("html:{}%end", d.text))
}
pub struct Pixmap(String);
impl Pixmap {
    pub fn encode_png(&self) -> Result<Vec<u8>, String> {
        Ok(self.0.clone().into_bytes())
    }
}
pub fn render(p: &Page, _ppp: f32) -> Pixmap {
    Pixmap(format!("png:{}%end", p.text))
}
pub fn render_merged(d: &PagedDocument, _ppp: f32, _gap: Abs, _fill: Option<::typst::visualize::Color>) -> Pixmap {
    Pixmap(format!("png:{}%end", d.pages[0].text))
}
pub struct Typlite<W>(std::sync::Arc<W>);
impl<W: ::typst::World> Typlite<W> {
    pub fn new(w: std::sync::Arc<W>) -> Self {
        Self(w)
    }
    pub fn convert(self) -> Result<ecow::EcoString, ecow::EcoString> {
        match ::typst::compile::<PagedDocument>(self.0.as_ref()).output {
            Ok(d) => Ok(ecow::eco_format!("md:{}%end", d.pages[0].text)),
            Err(_) => Err("compile error".into()),
        }
    }
}

// reflexo-vec2svg: what changed since last time, which is all of it. The number
// says what it has to follow.
#[derive(Default)]
pub struct IncrSvgDocServer {
    made: u64,
    now: Option<(String, ::typst::layout::Frame)>,
}
type Range = (debug_loc::SourceSpanOffset, debug_loc::SourceSpanOffset);
impl IncrSvgDocServer {
    pub fn set_should_attach_debug_info(&mut self, _y: bool) {}
    pub fn pack_delta(&mut self, d: &TypstDocument) -> Vec<u8> {
        ::typst::sim::pause(2);
        let (text, frame) = match d {
            TypstDocument::Paged(d) => (d.pages[0].text.clone(), d.pages[0].frame.clone()),
            TypstDocument::Html(d) => (d.text.clone(), Default::default()),
        };
        self.made += 1;
        let out = format!("diff-v1,{},{text}", self.made).into_bytes();
        self.now = Some((text, frame));
        out
    }
    pub fn pack_current(&mut self) -> Option<Vec<u8>> {
        let (text, _) = self.now.as_ref()?;
        Some(format!("new,{},{text}", self.made).into_bytes())
    }
    /// The element with some index is the line with that number.
    pub fn resolve_span_by_element_path(&mut self, p: &[debug_loc::ElementPoint]) -> Result<Option<Range>, String> {
        let p = p.last().ok_or("no path")?;
        let Some((_, frame)) = &self.now else { return Ok(None) };
        Ok(frame.0.get(p.index as usize).map(|s| ((*s).into(), (*s).into())))
    }
    pub fn resolve_element_paths_by_span(
        &mut self,
        at: debug_loc::SourceSpanOffset,
    ) -> Result<Vec<Vec<debug_loc::ElementPoint>>, String> {
        let (_, frame) = self.now.as_ref().ok_or("no document")?;
        let it = frame.0.iter().enumerate().filter(|(_, s)| **s == at.span);
        Ok(it.map(|(i, _)| vec![(1, i as u32, at.offset.to_string()).into()]).collect())
    }
}

// serde_yaml
pub fn to_string<T: serde::Serialize>(v: &T) -> serde_json::Result<String> {
    serde_json::to_string(v)
}

// open
pub fn that_detached(_p: impl AsRef<std::ffi::OsStr>) -> std::io::Result<()> {
    Ok(())
}

// tinymist-render
#[derive(Debug, Clone, Default, PartialEq, Eq, serde::Deserialize)]
pub struct PeriscopeArgs {
    #[serde(default)]
    pub invert_color: String,
}
pub struct PeriscopeRenderer;
impl PeriscopeRenderer {
    pub fn new(_a: PeriscopeArgs) -> Self {
        Self
    }
    pub fn render_marked<C, D, P>(&self, _c: &mut C, _d: &D, _p: P) -> Option<String> {
        None
    }
}

// strum
pub trait IntoEnumIterator: Sized {
    fn iter() -> std::vec::IntoIter<Self>;
}

// itertools
pub trait Itertools: Iterator + Sized {
    fn tuples(self) -> Tuples<Self> {
        Tuples(self)
    }
}
impl<I: Iterator> Itertools for I {}
pub struct Tuples<I>(I);
impl<I: Iterator> Iterator for Tuples<I> {
    type Item = (I::Item, I::Item);
    fn next(&mut self) -> Option<Self::Item> {
        Some((self.0.next()?, self.0.next()?))
    }
}

// regex: the patterns in use are literal texts
pub struct RegexSet(Vec<String>);
impl RegexSet {
    pub fn new<S: AsRef<str>>(p: impl IntoIterator<Item = S>) -> Result<Self, String> {
        Ok(Self(p.into_iter().map(|s| s.as_ref().to_owned()).collect()))
    }
    pub fn is_match(&self, s: &str) -> bool {
        self.0.iter().any(|p| s.contains(p.as_str()))
    }
}

// typstyle-core, typstfmt: a formatter upper-cases and squeezes
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct Config {
    pub max_line_length: usize,
    pub indent_space: usize,
}
impl Config {
    pub fn with_width(mut self, w: usize) -> Self {
        self.max_line_length = w;
        self
    }
    pub fn with_tab_spaces(mut self, w: usize) -> Self {
        self.indent_space = w;
        self
    }
}
/// What the stand-in formatter makes of a text: the two letters of each of
/// the pairs swapped (they share bytes of their encodings), blanks squeezed,
/// an x doubled.
pub fn formatted(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        match c {
            'é' => out.push('©'),
            '©' => out.push('é'),
            '中' => out.push('丮'),
            ' ' if out.ends_with(' ') => {}
            'x' => out.push_str("xx"),
            c => out.push(c),
        }
    }
    out
}
pub struct Typstyle(());
impl Typstyle {
    pub fn new(_c: Config) -> Self {
        Self(())
    }
    pub fn format_source(&self, s: &::typst::syntax::Source) -> Result<String, ()> {
        Ok(formatted(s.text()))
    }
}
pub fn format(s: &str, _c: Config) -> String {
    formatted(s)
}
