//! No fonts.
pub fn fonts() -> impl Iterator<Item = &'static [u8]> {
    std::iter::empty()
}
