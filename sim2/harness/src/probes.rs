//! Named events whose reach is reported in the evidence.
macro_rules! probes { ($($i:ident)*) => {
    #[allow(non_camel_case_types, clippy::upper_case_acronyms, dead_code)]
    #[repr(usize)]
    pub enum P { $($i),* }
    pub const NAMES: &[&str] = &[$(stringify!($i)),*];
} }
probes! {
    reads_checked sources_checked overlay_reads notified_reads disk_reads old_snapshot_reads clean_answers dirty_answers
    derived_views forked_views cache_evicted package_moved
    dependencies_synced watch_dropped empties_reported changes_reported removals_reported upstream_updates watches_refused
    inotify_events watched_at_rest
    projects_reloaded positions_out_of_bounds documents_opened documents_edited documents_closed documents_saved files_changed_on_disk
    settings_changed settings_asked_for diagnostics_published diagnostics_checked statuses_checked exports_checked exports_failed pdfs_checked
    queries_checked formattings_checked states_checked
    browsers_connected browsers_poked jumps_checked previews_started previews_ended pages_checked outlines_checked typed_long pages_held pages_saved
    packages_served packages_checked packages_refused latest_checked asker_crashed
    locks_read locks_checked reads_ordered updates_refused foreign_locks_kept updater_crashed routes_checked routes_found
}
pub fn hit(p: P) {
    simrt::probe(p as usize)
}
