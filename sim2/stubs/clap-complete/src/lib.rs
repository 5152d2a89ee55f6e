//! Stands in for clap_complete: only the names of the shells.
#[derive(Debug, Clone, Copy, PartialEq, Eq, clap::ValueEnum)]
#[non_exhaustive]
pub enum Shell {
    Bash,
    Elvish,
    Fish,
    PowerShell,
    Zsh,
}
impl Shell {
    pub fn from_env() -> Option<Self> {
        None
    }
}
