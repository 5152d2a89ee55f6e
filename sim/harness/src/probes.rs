//! Named events whose reach is reported in the evidence.
macro_rules! probes { ($($i:ident)*) => {
    #[allow(non_camel_case_types, clippy::upper_case_acronyms, dead_code)]
    #[repr(usize)]
    pub enum P { $($i),* }
    pub const NAMES: &[&str] = &[$(stringify!($i)),*];
} }
probes! {
    responses_checked out_of_order_responses racing_responders unserialisable_results reused_ids settles eof_mid_message eof_at_boundary
    garbage_frames proper_shutdowns exit_without_shutdown output_closed input_error server_requests_answered
    server_requests_abandoned duplicate_client_responses events_dispatched event_before_init
    rejected_lifecycle malformed_params commands resources notifications_dispatched order_checked
    pending_at_exit mirror_checked mirror_disk_failed replays replays_waited replays_with_stuck_requests
    locks_taken lock_contended lock_crash_release writer_crashed atomic_old_seen atomic_new_seen
    write_reported_error tempdirs cleanup_ok cachedir_ok query_computed query_raced query_panicked query_failed fmap_inserted fmap_raced
    fp_resolved fp_conflict_seen locale_switch locale_read concurrent_readers shared_holders
    unchanged_write_skipped append_ok reentrant_lock_fallback take_raced output_failed response_handlers_acting
}
pub fn hit(p: P) {
    simrt::probe(p as usize)
}
