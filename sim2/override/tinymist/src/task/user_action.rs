//! Tracing spawns a process: it is out of the simulation.
use std::path::PathBuf;

use reflexo_typst::TypstDict;
use serde_json::Value as JsonValue;
use sync_ls::*;

pub struct TraceParams {
    pub compiler_program: PathBuf,
    pub root: PathBuf,
    pub main: PathBuf,
    pub inputs: TypstDict,
    pub font_paths: Vec<PathBuf>,
    pub rpc_kind: String,
}
#[derive(Debug, Clone, Copy, Default)]
pub struct UserActionTask;
impl UserActionTask {
    pub fn trace(&self, _params: TraceParams) -> SchedulableResponse<JsonValue> {
        Err(method_not_found())
    }
}
