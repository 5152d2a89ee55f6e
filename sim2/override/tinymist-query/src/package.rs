//! Packages are out of the simulation.
use ecow::{eco_format, EcoString};
use serde::{Deserialize, Serialize};
use tinymist_project::LspWorld;
use typst::diag::StrResult;
use typst::syntax::package::PackageSpec;
use typst::syntax::FileId;

use crate::analysis::LocalContext;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PackageInfo {
    pub path: std::path::PathBuf,
    pub namespace: EcoString,
    pub name: EcoString,
    pub version: String,
}
impl From<(std::path::PathBuf, PackageSpec)> for PackageInfo {
    fn from((path, s): (std::path::PathBuf, PackageSpec)) -> Self {
        Self { path, namespace: s.namespace, name: s.name, version: s.version.to_string() }
    }
}
pub struct PackageManifest {
    pub package: Info,
}
pub struct Info {
    pub entrypoint: EcoString,
}
fn none<T>() -> StrResult<T> {
    Err(eco_format!("no packages"))
}
pub fn get_manifest_id(_i: &PackageInfo) -> StrResult<FileId> {
    none()
}
pub fn get_manifest(_w: &LspWorld, _id: FileId) -> StrResult<PackageManifest> {
    none()
}
pub fn check_package(_c: &mut LocalContext, _i: &PackageInfo) -> StrResult<()> {
    none()
}
pub fn list_package_by_namespace<R>(_r: &R, _ns: EcoString) -> Vec<(std::path::PathBuf, PackageSpec)> {
    vec![]
}
