//! Stub of typst-ansi-hl: no colors.
#[derive(Default)]
pub struct Highlighter;
impl Highlighter {
    pub fn for_discord(&mut self) -> &mut Self {
        self
    }
    pub fn with_soft_limit(&mut self, _n: usize) -> &mut Self {
        self
    }
    pub fn highlight(&self, s: &str) -> Result<String, String> {
        Ok(s.to_owned())
    }
}
