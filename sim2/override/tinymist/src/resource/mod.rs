//! Fonts and symbols are out of the simulation.
use serde_json::Value as JsonValue;
use sync_ls::*;

use crate::project::LspComputeGraph;
use crate::ServerState;

impl ServerState {
    pub async fn get_font_resources(_snapshot: LspComputeGraph) -> LspResult<JsonValue> {
        Ok(JsonValue::Null)
    }
    pub async fn get_symbol_resources(_snapshot: LspComputeGraph) -> LspResult<JsonValue> {
        Ok(JsonValue::Null)
    }
}
