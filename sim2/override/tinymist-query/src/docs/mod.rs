//! Documentation is out of the simulation.
use ecow::eco_format;
use typst::diag::StrResult;

use crate::analysis::LocalContext;
use crate::package::PackageInfo;

pub fn package_module_docs(_c: &mut LocalContext, _i: &PackageInfo) -> StrResult<Vec<String>> {
    Err(eco_format!("no packages"))
}
pub fn package_docs(_c: &mut LocalContext, _i: &PackageInfo) -> StrResult<String> {
    Err(eco_format!("no packages"))
}
