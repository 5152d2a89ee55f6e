//! Debugging is out of the simulation.
use dapts::*;
use sync_ls::*;

use super::*;

fn none<T>() -> SchedulableResponse<T> {
    Err(method_not_found())
}
impl ServerState {
    pub(crate) fn configuration_done(&mut self, _: ConfigurationDoneArguments) -> SchedulableResponse<()> {
        none()
    }
    pub(crate) fn disconnect(&mut self, _: DisconnectArguments) -> SchedulableResponse<()> {
        none()
    }
    pub(crate) fn terminate_debug(&mut self, _: TerminateArguments) -> SchedulableResponse<()> {
        none()
    }
    pub(crate) fn terminate_debug_thread(&mut self, _: TerminateThreadsArguments) -> SchedulableResponse<()> {
        none()
    }
    pub(crate) fn attach_debug(&mut self, _: AttachRequestArguments) -> SchedulableResponse<()> {
        none()
    }
    pub(crate) fn launch_debug(&mut self, _: LaunchRequestArguments) -> SchedulableResponse<()> {
        none()
    }
    pub(crate) fn evaluate_repl(&mut self, _: EvaluateArguments) -> SchedulableResponse<EvaluateResponse> {
        none()
    }
    pub(crate) fn complete_repl(&mut self, _: CompletionsArguments) -> SchedulableResponse<CompletionsResponse> {
        none()
    }
    pub(crate) fn debug_threads(&mut self, _: ()) -> SchedulableResponse<ThreadsResponse> {
        none()
    }
}
