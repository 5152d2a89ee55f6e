From 4a510f915e229d4d35caf96410b1e1d466c0f938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 01/24] fix: answer tinymist.getResources without arguments
 instead of panicking

---
 crates/sync-lsp/src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sync-lsp/src/server.rs b/crates/sync-lsp/src/server.rs
index 08b48b4..b0c328e 100644
--- a/crates/sync-lsp/src/server.rs
+++ b/crates/sync-lsp/src/server.rs
@@ -617,8 +617,11 @@ impl<M, Args: Initializer> LsDriver<M, Args> {
     pub fn get_resources(&mut self, req_id: RequestId, args: Vec<JsonValue>) -> ScheduledResult {
         let s = self.state.opt_mut().ok_or_else(not_initialized)?;
 
+        let path = args
+            .first()
+            .ok_or_else(|| invalid_params("expect the resource path at args[0]"))?;
         let path =
-            from_value::<PathBuf>(args[0].clone()).map_err(|e| invalid_params(e.to_string()))?;
+            from_value::<PathBuf>(path.clone()).map_err(|e| invalid_params(e.to_string()))?;
 
         let Some(handler) = self.resources.get(path.as_path()) else {
             log::error!("asked for unknown resource: {path:?}");
-- 
2.43.0


From 30ed312991cfd517936bfa3ccc03290f15dca30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 02/24] fix: do not read again, and panic on failure, when the
 mirrored input has ended

---
 crates/sync-lsp/src/transport.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/sync-lsp/src/transport.rs b/crates/sync-lsp/src/transport.rs
index 4a7cc4a..864b3bd 100644
--- a/crates/sync-lsp/src/transport.rs
+++ b/crates/sync-lsp/src/transport.rs
@@ -222,6 +222,12 @@ impl<R: Read + BufRead, W: Write> BufRead for MirrorWriter<R, W> {
     }
 
     fn consume(&mut self, amt: usize) {
+        // Nothing is consumed at the end of input, where `fill_buf` would read (and
+        // may fail) again instead of returning what is buffered.
+        if amt == 0 {
+            return;
+        }
+
         let buf = self.0.fill_buf().unwrap();
 
         if let Err(err) = self.1.write_all(&buf[..amt]) {
-- 
2.43.0


From a6e540e047058a794d4976760cc884c4d68bd9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 03/24] fix: keep the character after a translated argument

---
 crates/tinymist-l10n/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index 9eeaf4a..bfac310 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -236,8 +236,14 @@ pub fn t_with_args(
     let message_iter = &mut message.chars();
     while let Some(c) = message_iter.next() {
         if c == '{' {
-            let arg_index_str = message_iter.take_while(|c| *c != '}').collect::<String>();
-            message_iter.next();
+            // Also consumes the closing brace, if there is one.
+            let mut closed = false;
+            let arg_index_str = message_iter
+                .take_while(|c| {
+                    closed = *c == '}';
+                    !closed
+                })
+                .collect::<String>();
 
             let Some(arg) = args
                 .iter()
@@ -246,6 +252,9 @@ pub fn t_with_args(
             else {
                 result.push(c);
                 result.push_str(&arg_index_str);
+                if closed {
+                    result.push('}');
+                }
                 continue;
             };
 
-- 
2.43.0


From 92a67c950388ddbb64496bddbb172ac1abab786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 04/24] fix: do not let readers of an older view fill in what a
 newer view of the vfs shows

A file that is about to be read when the vfs is revised has an entry without
content and no mapped path yet. The entry was shared with the next revision,
where nothing could invalidate it, so that the content of the older view (and,
if the file changed in that very revision, stale content) came up there and
stayed. Resetting shadows or notifying changes of paths that are not mapped
yet even left both views in the same revision.
---
 crates/tinymist-vfs/src/lib.rs | 46 +++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index 8e8b3ed..56558a7 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -340,7 +340,9 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
     }
 
     pub fn revise(&mut self) -> RevisingVfs<M> {
-        let managed = self.managed.lock().clone();
+        let mut managed = self.managed.lock().clone();
+        managed.forget_unread();
+        // Only now: the paths of all the entries that are kept are mapped.
         let paths = self.paths.lock().clone();
         let goal_revision = self.revision.checked_add(1).expect("revision overflowed");
 
@@ -359,17 +361,19 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
 
     /// Reads a file.
     pub fn read(&self, fid: TypstFileId) -> FileResult<Bytes> {
-        let bytes = self.managed.lock().slot(fid, |entry| entry.bytes.clone());
+        let bytes = self
+            .managed
+            .lock()
+            .slot(fid, self.revision, |entry| entry.bytes.clone());
 
         self.read_content(&bytes, fid).clone()
     }
 
     /// Reads a source.
     pub fn source(&self, file_id: TypstFileId) -> FileResult<Source> {
-        let (bytes, source) = self
-            .managed
-            .lock()
-            .slot(file_id, |entry| (entry.bytes.clone(), entry.source.clone()));
+        let (bytes, source) = self.managed.lock().slot(file_id, self.revision, |entry| {
+            (entry.bytes.clone(), entry.source.clone())
+        });
 
         let source = source.get_or_init(|| {
             let content = self
@@ -493,7 +497,7 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
 
     fn invalidate_file_id(&mut self, file_id: TypstFileId) {
         self.view_changed = true;
-        self.managed.slot(file_id, |e| {
+        self.managed.slot(file_id, self.goal_revision, |e| {
             e.changed_at = self.goal_revision.get();
             e.bytes = Arc::default();
             e.source = Arc::default();
@@ -502,6 +506,7 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
 
     /// Reset the shadowing files in [`OverlayAccessModel`].
     pub fn reset_shadow(&mut self) {
+        self.view_changed = true;
         for path in self.am().inner.inner.file_paths() {
             self.invalidate_path(&path);
         }
@@ -566,6 +571,9 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
     ///
     /// See [`NotifyAccessModel`] for more information.
     pub fn notify_fs_changes(&mut self, event: FileChangeSet) {
+        // Even if none of the paths is mapped yet: a reader may be about to
+        // read such a file in the current revision, with the content it had.
+        self.view_changed |= !event.is_empty();
         for path in &event.removes {
             self.invalidate_path(path);
         }
@@ -594,17 +602,37 @@ struct EntryMap {
 impl EntryMap {
     /// Read a slot.
     #[inline(always)]
-    fn slot<T>(&mut self, path: TypstFileId, f: impl FnOnce(&mut VfsEntry) -> T) -> T {
+    fn slot<T>(
+        &mut self,
+        path: TypstFileId,
+        rev: NonZeroUsize,
+        f: impl FnOnce(&mut VfsEntry) -> T,
+    ) -> T {
         if let Some(entry) = self.entries.get_mut(&path) {
             f(entry)
         } else {
-            let mut entry = VfsEntry::default();
+            // What the file was before this revision is not known here.
+            let mut entry = VfsEntry {
+                changed_at: rev.get(),
+                ..VfsEntry::default()
+            };
             let res = f(&mut entry);
             self.entries.insert_mut(path, entry);
             res
         }
     }
 
+    /// Forgets the entries whose content is not there yet, instead of sharing
+    /// them with the next revision: a reader may be about to fill them with
+    /// what it sees in an older one, and their paths are not mapped before.
+    fn forget_unread(&mut self) {
+        let entries = self.entries.iter();
+        let unread = entries.filter(|(_, e)| e.bytes.get().is_none());
+        for id in unread.map(|(id, _)| *id).collect::<Vec<_>>() {
+            self.entries.remove_mut(&id);
+        }
+    }
+
     fn display(&self) -> DisplayEntryMap {
         DisplayEntryMap { map: self }
     }
-- 
2.43.0


From fe994beb0a6196c169abf9988651646eeafe9140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 05/24] fix: report files that stay empty or removed after the
 recheck

Entering the intermediate state overwrote the content the consumer knows with
the very content that was to be rechecked, so that the recheck always found
nothing to report. The recheck of an earlier event also ended the state
belonging to a later one.
---
 crates/tinymist-project/src/watch.rs | 52 +++++++++++-----------------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index cfe06da..324f9b6 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -37,10 +37,7 @@ enum WatchState {
     Stable,
     /// The file is empty or removed, but there is a chance that the file is not
     /// stable. So we need to recheck the file after a while.
-    EmptyOrRemoval {
-        recheck_at: usize,
-        payload: FileSnapshot,
-    },
+    EmptyOrRemoval { recheck_at: usize },
 }
 
 /// By default, the state is stable.
@@ -373,7 +370,7 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
             // current content is ok
             (None, ..) | (Some(Err(..)), Ok(..)) => {}
             // Meet some error currently
-            (Some(it), Err(err)) => match &mut entry.state {
+            (Some(it), Err(err)) => match entry.state {
                 // If the file is stable, check whether the editor is removing
                 // or truncating the file. They are possibly flushing the file
                 // but not finished yet.
@@ -381,9 +378,7 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                     if matches!(err.as_ref(), FileError::NotFound(..) | FileError::Other(..)) {
                         entry.state = WatchState::EmptyOrRemoval {
                             recheck_at: self.logical_tick,
-                            payload: file.clone(),
                         };
-                        entry.prev = Some(file);
                         let event = UndeterminedNotifyEvent {
                             at_realtime: tinymist_std::time::Instant::now(),
                             at_logical_tick: self.logical_tick,
@@ -402,16 +397,13 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
 
                 // Very complicated case of check error sequence, so we simplify
                 // a bit, we regard any subsequent error as the same error.
-                WatchState::EmptyOrRemoval { payload, .. } => {
-                    // update payload
-                    *payload = file;
-                    return None;
-                }
+                WatchState::EmptyOrRemoval { .. } => return None,
             },
             // Compare content for transitional the state
             (Some(Ok(prev_content)), Ok(next_content)) => {
                 // So far it is accurately no change for the file, skip it
                 if prev_content == next_content {
+                    entry.state = WatchState::Stable;
                     return None;
                 }
 
@@ -423,9 +415,7 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                         if next_content.is_empty() {
                             entry.state = WatchState::EmptyOrRemoval {
                                 recheck_at: self.logical_tick,
-                                payload: file.clone(),
                             };
-                            entry.prev = Some(file);
                             let event = UndeterminedNotifyEvent {
                                 at_realtime: tinymist_std::time::Instant::now(),
                                 at_logical_tick: self.logical_tick,
@@ -474,29 +464,29 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
         let entry = self.watched_entries.get_mut(&event.path)?;
 
         // Check the state of the entry
-        match std::mem::take(&mut entry.state) {
-            // If the entry is stable, we do nothing
-            WatchState::Stable => {}
+        match entry.state {
             // If the entry is not stable, and no other event is produced after
             // this event, we send the event to the consumer.
-            WatchState::EmptyOrRemoval {
-                recheck_at,
-                payload,
-            } => {
-                if recheck_at == event.at_logical_tick {
-                    log::debug!("notify event real happened {event:?}, state: {payload:?}");
-
-                    if Some(&payload) == entry.prev.as_ref() {
-                        return None;
-                    }
+            WatchState::EmptyOrRemoval { recheck_at } if recheck_at == event.at_logical_tick => {
+                entry.state = WatchState::Stable;
 
-                    // Send the underlying change to the consumer
-                    let mut changeset = FileChangeSet::default();
-                    changeset.inserts.push((event.path, payload));
+                let file = FileSnapshot::from(self.inner.content(&event.path));
+                log::debug!("notify event real happened {event:?}, state: {file:?}");
 
-                    (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
+                if Some(&file) == entry.prev.as_ref() {
+                    return None;
                 }
+                entry.prev = Some(file.clone());
+
+                // Send the underlying change to the consumer
+                let mut changeset = FileChangeSet::default();
+                changeset.inserts.push((event.path, file));
+
+                (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
             }
+            // If the entry is stable, or another event is going to be
+            // rechecked, we do nothing
+            _ => {}
         };
 
         Some(())
-- 
2.43.0


From 947edd19a43c74a6e7f931a7ebb8b4340defc214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 06/24] fix: keep watching the other dependencies on an
 upstream update

An upstream update names the files whose shadow is removed, not the set of
dependencies. It unwatched all the others, and if none of the invalidated
files was a dependency no compilation followed to synchronize the set again.
---
 crates/tinymist-project/src/watch.rs | 49 +++++++++++++++-------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index 324f9b6..aa2eead 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -204,7 +204,8 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
     /// Update the watches of corresponding invalidation
     fn invalidate_upstream(&mut self, event: UpstreamUpdateEvent) {
         // Update watches of invalidated files.
-        let changeset = self.update_watches(&event.invalidates).unwrap_or_default();
+        let mut changeset = FileChangeSet::default();
+        self.update_entries(&event.invalidates, &mut changeset);
 
         // Send the event to the consumer.
         (self.interrupted_by_events)(FilesystemEvent::UpstreamUpdate {
@@ -219,7 +220,32 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
         self.lifetime += 1;
 
         let mut changeset = FileChangeSet::default();
+        self.update_entries(paths, &mut changeset);
+
+        // Remove old entries.
+        // Note: since we have increased the lifetime, it is safe to remove the
+        // old entries after updating the watched entries.
+        self.watched_entries.retain(|path, entry| {
+            if !entry.seen && entry.watching {
+                log::debug!("unwatch {path:?}");
+                if let Some(watcher) = &mut self.watcher {
+                    log_notify_error(watcher.0.unwatch(path), "failed to unwatch");
+                    entry.watching = false;
+                }
+            }
+
+            let fresh = self.lifetime - entry.lifetime < 30;
+            if !fresh {
+                changeset.removes.push(path.clone());
+            }
+            fresh
+        });
+
+        (!changeset.is_empty()).then_some(changeset)
+    }
 
+    /// Update the entries of the given files, leaving the others as they are.
+    fn update_entries(&mut self, paths: &dyn NotifyDeps, changeset: &mut FileChangeSet) {
         // Mark the old entries as unseen.
         for path in self.watched_entries.values_mut() {
             path.seen = false;
@@ -278,27 +304,6 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                 changeset.inserts.push((path.clone(), watched.into()));
             }
         });
-
-        // Remove old entries.
-        // Note: since we have increased the lifetime, it is safe to remove the
-        // old entries after updating the watched entries.
-        self.watched_entries.retain(|path, entry| {
-            if !entry.seen && entry.watching {
-                log::debug!("unwatch {path:?}");
-                if let Some(watcher) = &mut self.watcher {
-                    log_notify_error(watcher.0.unwatch(path), "failed to unwatch");
-                    entry.watching = false;
-                }
-            }
-
-            let fresh = self.lifetime - entry.lifetime < 30;
-            if !fresh {
-                changeset.removes.push(path.clone());
-            }
-            fresh
-        });
-
-        (!changeset.is_empty()).then_some(changeset)
     }
 
     /// Notify the event from the builtin watcher.
-- 
2.43.0


From c16cd44fdb6d62d83e8fb4b137b34859043d855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 07/24] fix: watch a replaced file again at once

If a dependency was replaced by a file with the same content, or removed and
created again before the recheck, no change was reported, thus no compilation
followed to synchronize the dependencies, and the file stayed unwatched.
---
 crates/tinymist-project/src/watch.rs | 68 +++++++++++++++-------------
 1 file changed, 36 insertions(+), 32 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index aa2eead..1f1fe34 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -65,6 +65,23 @@ struct WatchedEntry {
     prev: Option<FileSnapshot>,
 }
 
+impl WatchedEntry {
+    /// Watches the file if it is not watched yet. A file that we cannot get
+    /// the metadata of successfully is okay to be ignored.
+    fn watch(&mut self, watcher: &mut RecommendedWatcher, path: &ImmutPath) {
+        if self.watching || !path.metadata().is_ok_and(|meta| !meta.is_dir()) {
+            return;
+        }
+
+        log::debug!("watching {path:?}");
+        self.watching = log_notify_error(
+            watcher.watch(path.as_ref(), RecursiveMode::NonRecursive),
+            "failed to watch",
+        )
+        .is_some();
+    }
+}
+
 /// Self produced event that check whether the file is stable after a while.
 #[derive(Debug)]
 struct UndeterminedNotifyEvent {
@@ -256,13 +273,11 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
         // Also check whether the file is updated since there is a window
         // between unwatch the file and watch the file again.
         paths.dependencies(&mut |path| {
-            let mut contained = false;
             // Update or insert the entry with the new lifetime.
             let entry = self
                 .watched_entries
                 .entry(path.clone())
                 .and_modify(|watch_entry| {
-                    contained = true;
                     watch_entry.lifetime = self.lifetime;
                 })
                 .or_insert_with(|| WatchedEntry {
@@ -278,25 +293,8 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
             }
             entry.seen = true;
 
-            // Update in-memory metadata for now.
-            let meta = path.metadata().map_err(|e| FileError::from_io(e, path));
-
             if let Some((watcher, _)) = &mut self.watcher {
-                // Case1. meta = Err(..) We cannot get the metadata successfully, so we
-                // are okay to ignore this file for watching.
-                //
-                // Case2. meta = Ok(..) Watch the file if it's not watched.
-                if meta
-                    .as_ref()
-                    .is_ok_and(|meta| !meta.is_dir() && (!contained || !entry.watching))
-                {
-                    log::debug!("watching {path:?}");
-                    entry.watching = log_notify_error(
-                        watcher.watch(path.as_ref(), RecursiveMode::NonRecursive),
-                        "failed to watch",
-                    )
-                    .is_some();
-                }
+                entry.watch(watcher, path);
 
                 changeset.may_insert(self.notify_entry_update(path.clone()));
             } else {
@@ -308,13 +306,6 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
 
     /// Notify the event from the builtin watcher.
     fn notify_event(&mut self, event: notify::Event) {
-        // Account file updates.
-        let mut changeset = FileChangeSet::default();
-        for path in event.paths.iter() {
-            // todo: remove this clone: path.into()
-            changeset.may_insert(self.notify_entry_update(path.as_path().into()));
-        }
-
         // Workaround for notify-rs' implicit unwatch on remove/rename
         // (triggered by some editors when saving files) with the
         // inotify backend. By keeping track of the potentially
@@ -334,15 +325,23 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                 if !entry.watching {
                     continue;
                 }
-                // Remove affected path from the watched map to restart
-                // watching on it later again.
-                if let Some(watcher) = &mut self.watcher {
-                    log_notify_error(watcher.0.unwatch(path), "failed to unwatch");
+                // Restart watching on the affected path, or, if it does not
+                // exist at the moment, later again.
+                if let Some((watcher, _)) = &mut self.watcher {
+                    log_notify_error(watcher.unwatch(path), "failed to unwatch");
+                    entry.watching = false;
+                    entry.watch(watcher, &path.as_path().into());
                 }
-                entry.watching = false;
             }
         }
 
+        // Account file updates.
+        let mut changeset = FileChangeSet::default();
+        for path in event.paths.iter() {
+            // todo: remove this clone: path.into()
+            changeset.may_insert(self.notify_entry_update(path.as_path().into()));
+        }
+
         // Send file updates.
         if !changeset.is_empty() {
             (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
@@ -475,6 +474,11 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
             WatchState::EmptyOrRemoval { recheck_at } if recheck_at == event.at_logical_tick => {
                 entry.state = WatchState::Stable;
 
+                // The file may have been created again in the meantime.
+                if let Some((watcher, _)) = &mut self.watcher {
+                    entry.watch(watcher, &event.path);
+                }
+
                 let file = FileSnapshot::from(self.inner.content(&event.path));
                 log::debug!("notify event real happened {event:?}, state: {file:?}");
 
-- 
2.43.0


From 88b470e4bd6ca49fe0742d6d228841fda441f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 08/24] fix: do not cut a character apart in formatting edits

---
 crates/tinymist/src/task/format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tinymist/src/task/format.rs b/crates/tinymist/src/task/format.rs
index f515705..783ddff 100644
--- a/crates/tinymist/src/task/format.rs
+++ b/crates/tinymist/src/task/format.rs
@@ -79,7 +79,7 @@ fn calc_diff(prev: Source, next: String, encoding: PositionEncoding) -> Option<V
         .count();
 
     while !old.is_char_boundary(old.len() - suffix) || !new.is_char_boundary(new.len() - suffix) {
-        suffix += 1;
+        suffix -= 1;
     }
 
     let replace = prefix..old.len() - suffix;
-- 
2.43.0


From 0cd1bef487f448075e56015481d3e64aef6da99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 09/24] fix: take positions past the end of a line as the end
 of the line

---
 crates/tinymist-analysis/src/location.rs | 90 +++++++-----------------
 1 file changed, 24 insertions(+), 66 deletions(-)

diff --git a/crates/tinymist-analysis/src/location.rs b/crates/tinymist-analysis/src/location.rs
index a775ad4..7bd4192 100644
--- a/crates/tinymist-analysis/src/location.rs
+++ b/crates/tinymist-analysis/src/location.rs
@@ -1,9 +1,8 @@
 //! Conversions between Typst and LSP locations
 
-use std::cmp::Ordering;
 use std::ops::Range;
 
-use typst::syntax::Source;
+use typst::syntax::{is_newline, Source};
 
 /// An LSP Position encoded by [`PositionEncoding`].
 type LspPosition = tinymist_world::debug_loc::LspPosition;
@@ -43,76 +42,36 @@ pub fn to_typst_position(
     lsp_position_encoding: PositionEncoding,
     typst_source: &Source,
 ) -> Option<usize> {
-    let lines = typst_source.len_lines() as u32;
-
-    'bound_checking: {
-        let should_warning = match lsp_position.line.cmp(&lines) {
-            Ordering::Greater => true,
-            Ordering::Equal => lsp_position.character > 0,
-            Ordering::Less if lsp_position.line + 1 == lines => {
-                let last_line_offset = typst_source.line_to_byte(lines as usize - 1)?;
-                let last_line_chars = &typst_source.text()[last_line_offset..];
-                let len = match lsp_position_encoding {
-                    PositionEncoding::Utf8 => last_line_chars.len(),
-                    PositionEncoding::Utf16 => {
-                        last_line_chars.chars().map(char::len_utf16).sum::<usize>()
-                    }
-                };
-
-                match lsp_position.character.cmp(&(len as u32)) {
-                    Ordering::Less => break 'bound_checking,
-                    Ordering::Greater => true,
-                    Ordering::Equal => false,
-                }
-            }
-            Ordering::Less => break 'bound_checking,
-        };
-
-        if should_warning {
+    let line_index = lsp_position.line as usize;
+    let Some(line_range) = typst_source.line_to_range(line_index) else {
+        if line_index > typst_source.len_lines() || lsp_position.character > 0 {
             log::warn!(
-                    "LSP position is out of bounds: {:?}, while only {:?} lines and {:?} characters at the end.",
-                    lsp_position, typst_source.len_lines(), typst_source.line_to_range(typst_source.len_lines() - 1),
-                );
+                "LSP position is out of bounds: {lsp_position:?}, while only {:?} lines.",
+                typst_source.len_lines(),
+            );
         }
 
         return Some(typst_source.len_bytes());
-    }
-
-    match lsp_position_encoding {
-        PositionEncoding::Utf8 => {
-            let line_index = lsp_position.line as usize;
-            let column_index = lsp_position.character as usize;
-            typst_source.line_column_to_byte(line_index, column_index)
-        }
-        PositionEncoding::Utf16 => {
-            // We have a line number and a UTF-16 offset into that line. We want a byte
-            // offset into the file.
-            //
-            // Typst's `Source` provides several UTF-16 methods:
-            //  - `len_utf16` for the length of the file
-            //  - `byte_to_utf16` to convert a byte offset from the start of the file to a
-            //    UTF-16 offset from the start of the file
-            //  - `utf16_to_byte` to do the opposite of `byte_to_utf16`
-            //
-            // Unfortunately, none of these address our needs well, so we do some math
-            // instead. This is not the fastest possible implementation, but
-            // it's the most reasonable without access to the internal state
-            // of `Source`.
-
-            // TODO: Typst's `Source` could easily provide an implementation of the method
-            // we need   here. Submit a PR against `typst` to add it, then
-            // update this if/when merged.
-
-            let line_index = lsp_position.line as usize;
-            let utf16_offset_in_line = lsp_position.character as usize;
+    };
 
-            let byte_line_offset = typst_source.line_to_byte(line_index)?;
-            let utf16_line_offset = typst_source.byte_to_utf16(byte_line_offset)?;
-            let utf16_offset = utf16_line_offset + utf16_offset_in_line;
+    // A character beyond the end of the line is at the end of the line, i.e. in
+    // front of the line terminator.
+    let line_start = line_range.start;
+    let line = typst_source.text()[line_range].trim_end_matches(is_newline);
 
-            typst_source.utf16_to_byte(utf16_offset)
+    let mut rest = lsp_position.character as usize;
+    for (column, ch) in line.char_indices() {
+        let len = match lsp_position_encoding {
+            PositionEncoding::Utf8 => ch.len_utf8(),
+            PositionEncoding::Utf16 => ch.len_utf16(),
+        };
+        if rest < len {
+            return Some(line_start + column);
         }
+        rest -= len;
     }
+
+    Some(line_start + line.len())
 }
 
 /// Convert a Typst position to an LSP position.
@@ -126,11 +85,10 @@ pub fn to_lsp_position(
     }
 
     let line_index = typst_source.byte_to_line(typst_offset).unwrap();
-    let column_index = typst_source.byte_to_column(typst_offset).unwrap();
 
     let lsp_line = line_index as u32;
     let lsp_column = match lsp_position_encoding {
-        PositionEncoding::Utf8 => column_index as u32,
+        PositionEncoding::Utf8 => typst_source.byte_to_column(typst_offset).unwrap() as u32,
         PositionEncoding::Utf16 => {
             // See the implementation of `position_to_offset` for discussion
             // relevant to this function.
-- 
2.43.0


From fdd633029b316435e2a197f787c4b5b2699bcb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:09 +0000
Subject: [PATCH 10/24] fix: announce UTF-8 positions when using them, and
 count bytes

---
 crates/tinymist-analysis/src/location.rs     | 6 +++++-
 crates/tinymist-query/src/analysis/global.rs | 2 +-
 crates/tinymist/src/lsp/init.rs              | 3 +--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/tinymist-analysis/src/location.rs b/crates/tinymist-analysis/src/location.rs
index 7bd4192..0613e04 100644
--- a/crates/tinymist-analysis/src/location.rs
+++ b/crates/tinymist-analysis/src/location.rs
@@ -88,7 +88,11 @@ pub fn to_lsp_position(
 
     let lsp_line = line_index as u32;
     let lsp_column = match lsp_position_encoding {
-        PositionEncoding::Utf8 => typst_source.byte_to_column(typst_offset).unwrap() as u32,
+        PositionEncoding::Utf8 => {
+            let byte_line_offset = typst_source.line_to_byte(line_index).unwrap();
+
+            (typst_offset - byte_line_offset) as u32
+        }
         PositionEncoding::Utf16 => {
             // See the implementation of `position_to_offset` for discussion
             // relevant to this function.
diff --git a/crates/tinymist-query/src/analysis/global.rs b/crates/tinymist-query/src/analysis/global.rs
index e3b59f2..636cf31 100644
--- a/crates/tinymist-query/src/analysis/global.rs
+++ b/crates/tinymist-query/src/analysis/global.rs
@@ -1360,7 +1360,7 @@ fn find_loc(
 
     let line = r as u32;
     let character = match encoding {
-        PositionEncoding::Utf8 => column_prefix.chars().count(),
+        PositionEncoding::Utf8 => column_prefix.len(),
         PositionEncoding::Utf16 => column_prefix.chars().map(|ch| ch.len_utf16()).sum(),
     } as u32;
 
diff --git a/crates/tinymist/src/lsp/init.rs b/crates/tinymist/src/lsp/init.rs
index 5062ef1..e9ff7ee 100644
--- a/crates/tinymist/src/lsp/init.rs
+++ b/crates/tinymist/src/lsp/init.rs
@@ -121,8 +121,7 @@ impl Initializer for SuperInit {
 
         let res = InitializeResult {
             capabilities: ServerCapabilities {
-                // todo: respect position_encoding
-                // position_encoding: Some(cc.position_encoding.into()),
+                position_encoding: Some(const_config.position_encoding.into()),
                 hover_provider: Some(HoverProviderCapability::Simple(true)),
                 signature_help_provider: Some(SignatureHelpOptions {
                     trigger_characters: Some(vec![
-- 
2.43.0


From 1cc2d2d3e591a58bec9f8a1f77ee2b32644e9231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 11/24] fix: do not let results of an older compilation replace
 newer ones in the editor

---
 crates/tinymist/src/actor/editor.rs | 65 ++++++++++++++++++++++++++---
 crates/tinymist/src/project.rs      | 26 ++++++------
 crates/tinymist/src/task/export.rs  | 12 ++++--
 3 files changed, 79 insertions(+), 24 deletions(-)

diff --git a/crates/tinymist/src/actor/editor.rs b/crates/tinymist/src/actor/editor.rs
index b9a4533..ccdfeed 100644
--- a/crates/tinymist/src/actor/editor.rs
+++ b/crates/tinymist/src/actor/editor.rs
@@ -27,10 +27,12 @@ pub enum EditorRequest {
     Config(EditorActorConfig),
     /// Publishes diagnostics to the editor.
     Diag(ProjVersion, Option<DiagnosticsMap>),
+    /// Removes a project and its diagnostics from the editor.
+    Removed(ProjectInsId),
     /// Updates compile status to the editor.
-    Status(CompileReport),
+    Status(ProjVersion, CompileReport),
     /// Updastes words count status to the editor.
-    WordCount(ProjectInsId, WordsCount),
+    WordCount(ProjVersion, WordsCount),
 }
 
 /// The actor maintaining output to the editor, including diagnostics and
@@ -50,6 +52,13 @@ pub struct EditorActor {
     diagnostics: HashMap<Url, HashMap<ProjectInsId, EcoVec<Diagnostic>>>,
     /// The map from project ID to the affected files.
     affect_map: HashMap<ProjectInsId, Vec<Url>>,
+
+    /// The versions of the latest diagnostics.
+    diag_versions: LatestVersions,
+    /// The versions of the latest compile status.
+    status_versions: LatestVersions,
+    /// The versions of the latest words count.
+    words_versions: LatestVersions,
 }
 
 impl EditorActor {
@@ -64,6 +73,9 @@ impl EditorActor {
             editor_rx,
             diagnostics: HashMap::new(),
             affect_map: HashMap::new(),
+            diag_versions: LatestVersions::default(),
+            status_versions: LatestVersions::default(),
+            words_versions: LatestVersions::default(),
             config: EditorActorConfig { notify_status },
         }
     }
@@ -91,10 +103,24 @@ impl EditorActor {
                         diagnostics.as_ref().map(|files| files.len())
                     );
 
-                    self.publish(version.id, diagnostics).await;
+                    if self.diag_versions.update(&version) {
+                        self.publish(version.id, diagnostics).await;
+                    }
+                }
+                EditorRequest::Removed(id) => {
+                    log::debug!("received removal of {id:?}");
+
+                    self.diag_versions.remove(&id);
+                    self.status_versions.remove(&id);
+                    self.words_versions.remove(&id);
+                    self.publish(id, None).await;
                 }
-                EditorRequest::Status(compile_status) => {
+                EditorRequest::Status(version, compile_status) => {
                     log::trace!("received status request: {compile_status:?}");
+                    if !self.status_versions.update(&version) {
+                        continue;
+                    }
+
                     if self.config.notify_status && compile_status.id == ProjectInsId::PRIMARY {
                         use tinymist_project::CompileStatusEnum::*;
 
@@ -112,9 +138,13 @@ impl EditorActor {
                         self.client.send_notification::<StatusAll>(&status);
                     }
                 }
-                EditorRequest::WordCount(id, count) => {
+                EditorRequest::WordCount(version, count) => {
                     log::trace!("received word count request");
-                    if self.config.notify_status && id == ProjectInsId::PRIMARY {
+                    if !self.words_versions.update(&version) {
+                        continue;
+                    }
+
+                    if self.config.notify_status && version.id == ProjectInsId::PRIMARY {
                         status.words_count = Some(count);
                         self.client.send_notification::<StatusAll>(&status);
                     }
@@ -196,6 +226,29 @@ pub struct ProjVersion {
     pub revision: usize,
 }
 
+/// The latest versions of the projects. Results of an older compilation can
+/// arrive after those of a newer one.
+#[derive(Debug, Default)]
+struct LatestVersions(HashMap<ProjectInsId, usize>);
+
+impl LatestVersions {
+    /// Remembers the version and returns whether it is not outdated.
+    fn update(&mut self, version: &ProjVersion) -> bool {
+        let last = self.0.entry(version.id.clone()).or_default();
+        if *last > version.revision {
+            log::info!("outdated {version:?}, the latest revision is {last}");
+            return false;
+        }
+        *last = version.revision;
+        true
+    }
+
+    /// Forgets the versions of a project.
+    fn remove(&mut self, id: &ProjectInsId) {
+        self.0.remove(id);
+    }
+}
+
 /// The compilation status of a project.
 #[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
 #[serde(rename_all = "camelCase")]
diff --git a/crates/tinymist/src/project.rs b/crates/tinymist/src/project.rs
index 8218a10..573def3 100644
--- a/crates/tinymist/src/project.rs
+++ b/crates/tinymist/src/project.rs
@@ -557,12 +557,13 @@ impl CompileHandler<LspCompilerFeat, ProjectInsStateExt> for CompileHandlerImpl
             *n_rev = revision;
         }
 
+        let dv = ProjVersion {
+            id: rep.id.clone(),
+            revision,
+        };
+
         if matches!(rep.status, tinymist_project::CompileStatusEnum::Suspend) {
-            let dv = ProjVersion {
-                id: rep.id.clone(),
-                revision,
-            };
-            self.push_diagnostics(dv, None);
+            self.push_diagnostics(dv.clone(), None);
         }
 
         #[cfg(feature = "preview")]
@@ -577,21 +578,18 @@ impl CompileHandler<LspCompilerFeat, ProjectInsStateExt> for CompileHandlerImpl
             });
         }
 
-        self.editor_tx.send(EditorRequest::Status(rep)).unwrap();
+        self.editor_tx.send(EditorRequest::Status(dv, rep)).unwrap();
     }
 
     fn notify_removed(&self, id: &ProjectInsId) {
-        let n_revs = &mut self.notified_revision.lock();
-        let last_rev = n_revs.remove(id).unwrap_or_default();
-
-        let dv = ProjVersion {
-            id: id.clone(),
-            revision: last_rev,
-        };
+        self.notified_revision.lock().remove(id);
+        self.status_revision.lock().remove(id);
 
         // todo: race condition with notify_compile?
         // remove diagnostics
-        self.push_diagnostics(dv, None);
+        self.editor_tx
+            .send(EditorRequest::Removed(id.clone()))
+            .log_error("failed to remove diagnostics");
     }
 
     fn notify_compile(&self, art: &LspCompiledArtifact) {
diff --git a/crates/tinymist/src/task/export.rs b/crates/tinymist/src/task/export.rs
index bc6a07a..190bd42 100644
--- a/crates/tinymist/src/task/export.rs
+++ b/crates/tinymist/src/task/export.rs
@@ -23,7 +23,8 @@ use crate::project::{
     ExportPdfTask, ExportPngTask, ExportSvgTask, ExportTask as ProjectExportTask, ExportTextTask,
     LspCompiledArtifact, ProjectTask, QueryTask, TaskWhen,
 };
-use crate::{actor::editor::EditorRequest, tool::word_count};
+use crate::actor::editor::{EditorRequest, ProjVersion};
+use crate::tool::word_count;
 
 #[derive(Clone)]
 pub struct ExportTask {
@@ -110,14 +111,17 @@ impl ExportTask {
         let fut = self.count_word_folder.spawn(rev, || {
             let artifact = artifact.clone();
             Box::pin(async move {
-                let id = artifact.id().clone();
+                let version = ProjVersion {
+                    id: artifact.id().clone(),
+                    revision: rev,
+                };
                 let doc = artifact.doc?;
                 let wc =
                     log_err(FutureFolder::compute(move |_| word_count::word_count(&doc)).await);
-                log::debug!("WordCount({id:?}:{rev}): {wc:?}");
+                log::debug!("WordCount({version:?}): {wc:?}");
 
                 if let Some(wc) = wc {
-                    let _ = editor_tx.send(EditorRequest::WordCount(id, wc));
+                    let _ = editor_tx.send(EditorRequest::WordCount(version, wc));
                 }
 
                 Some(())
-- 
2.43.0


From 74765eef27db15df81a1aabe3eb0df5a09f68e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 12/24] fix: notify of a document before the next compilation
 can start

---
 crates/tinymist/src/project.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist/src/project.rs b/crates/tinymist/src/project.rs
index 573def3..4b1924a 100644
--- a/crates/tinymist/src/project.rs
+++ b/crates/tinymist/src/project.rs
@@ -617,7 +617,6 @@ impl CompileHandler<LspCompilerFeat, ProjectInsStateExt> for CompileHandlerImpl
             .log_error("failed to print diagnostics");
         }
 
-        self.client.interrupt(LspInterrupt::Compiled(art.clone()));
         self.export.signal(art);
 
         #[cfg(feature = "preview")]
@@ -628,6 +627,10 @@ impl CompileHandler<LspCompilerFeat, ProjectInsStateExt> for CompileHandlerImpl
             log::debug!("Project: no preview for {:?}", art.id());
         }
 
+        // The next compilation can start as soon as the compiler knows about this one,
+        // so that its document must have been taken by then.
+        self.client.interrupt(LspInterrupt::Compiled(art.clone()));
+
         self.notify_diagnostics(art);
     }
 }
-- 
2.43.0


From 2aa0e3d36a07f34696a9b4bac1bfaf641a0abc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 13/24] fix: do not take compilations of the replaced or
 removed projects as current

---
 crates/tinymist/src/project.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist/src/project.rs b/crates/tinymist/src/project.rs
index 4b1924a..1fe55c5 100644
--- a/crates/tinymist/src/project.rs
+++ b/crates/tinymist/src/project.rs
@@ -94,6 +94,13 @@ impl ServerState {
 
         let mut old_project = std::mem::replace(&mut self.project, new_project);
 
+        // The compilations of the old project may be still running, whose results must
+        // be outdated to the new project.
+        let old_revision = old_project.compiler.primary.verse.revision;
+        let primary = &mut self.project.compiler.primary;
+        primary.verse.revision = old_revision.checked_add(1).unwrap();
+        primary.ext.notified_revision = old_revision.get();
+
         // todo: the old dedicate projects should be transferred.
 
         let snapshot = FileChangeSet::new_inserts(
@@ -309,10 +316,18 @@ impl ProjectState {
     pub fn do_interrupt(compiler: &mut LspProjectCompiler, intr: Interrupt<LspCompilerFeat>) {
         if let Interrupt::Compiled(compiled) = &intr {
             let proj = compiler.projects().find(|p| &p.id == compiled.id());
-            if let Some(proj) = proj {
-                proj.ext
-                    .compiled(&proj.verse.revision, proj.handler.as_ref(), compiled);
+            let Some(proj) = proj else {
+                log::info!("Project: outdated compilation of {:?}", compiled.id());
+                return;
+            };
+
+            if proj.ext.notified_revision >= compiled.world().revision().get() {
+                log::info!("Project: outdated compilation of {:?}", compiled.id());
+                return;
             }
+
+            proj.ext
+                .compiled(&proj.verse.revision, proj.handler.as_ref(), compiled);
         }
 
         compiler.process(intr);
-- 
2.43.0


From 5ab56dd11bbf140782e9925b8330ee0fb18dbac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:31 +0000
Subject: [PATCH 14/24] fix: keep the main file when the projects are reloaded

---
 crates/tinymist/src/input.rs | 13 +++++++++++++
 crates/tinymist/src/lsp.rs   |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/crates/tinymist/src/input.rs b/crates/tinymist/src/input.rs
index ff4b1de..6eceb84 100644
--- a/crates/tinymist/src/input.rs
+++ b/crates/tinymist/src/input.rs
@@ -132,6 +132,19 @@ impl ServerState {
         self.change_main_file(entry).map(|_| ())
     }
 
+    /// Gets the path to the main file that the primary project should have
+    /// again after reloading.
+    pub(crate) fn main_file_to_keep(&self) -> Option<ImmutPath> {
+        if self.is_pinning() {
+            let entry = self.project.compiler.primary.verse.entry_state();
+            let main = entry.main()?.vpath().resolve(&entry.workspace_root()?)?;
+            return Some(main.as_path().into());
+        }
+
+        let default = self.entry_resolver().resolve_default();
+        default.or_else(|| self.focusing.clone())
+    }
+
     /// Focuses main file to the given path.
     pub fn focus_main_file(&mut self, new_entry: Option<ImmutPath>) -> Result<bool> {
         if new_entry.as_deref() != self.focusing.as_deref() {
diff --git a/crates/tinymist/src/lsp.rs b/crates/tinymist/src/lsp.rs
index 6d80ae5..86db185 100644
--- a/crates/tinymist/src/lsp.rs
+++ b/crates/tinymist/src/lsp.rs
@@ -151,8 +151,11 @@ impl ServerState {
 
         if old_config.primary_opts() != self.config.primary_opts() {
             self.config.fonts = OnceLock::new(); // todo: don't reload fonts if not changed
+            let main = self.main_file_to_keep();
             self.reload_projects()
                 .log_error("could not restart primary");
+            self.change_main_file(main)
+                .log_error("could not restore the main file");
         }
 
         if old_config.semantic_tokens != self.config.semantic_tokens {
-- 
2.43.0


From 99464a37edce11c3f62fd3f09d17a4fa39bba9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 15/24] fix: do not give the events of a replaced watcher to
 the new project

---
 crates/tinymist/src/project.rs | 12 ++++++++++--
 crates/tinymist/src/server.rs  | 11 +++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist/src/project.rs b/crates/tinymist/src/project.rs
index 1fe55c5..10fa778 100644
--- a/crates/tinymist/src/project.rs
+++ b/crates/tinymist/src/project.rs
@@ -22,7 +22,9 @@
 use reflexo_typst::{diag::print_diagnostics, TypstDocument};
 pub use tinymist_project::*;
 
-use std::{num::NonZeroUsize, sync::Arc};
+use std::num::NonZeroUsize;
+use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::Arc;
 
 use parking_lot::Mutex;
 use reflexo::hash::FxHashMap;
@@ -199,12 +201,15 @@ impl ServerState {
         let verse =
             LspUniverseBuilder::build(entry, export_target, features, inputs, packages, fonts);
 
+        static GENERATION: AtomicUsize = AtomicUsize::new(0);
+        let generation = GENERATION.fetch_add(1, Ordering::SeqCst);
+
         // todo: unify filesystem watcher
         let (dep_tx, dep_rx) = mpsc::unbounded_channel();
         let fs_client = client.clone().to_untyped();
         let async_handle = client.handle.clone();
         async_handle.spawn(watch_deps(dep_rx, move |event| {
-            fs_client.send_event(LspInterrupt::Fs(event));
+            fs_client.send_event(ServerEvent::Fs(generation, event));
         }));
 
         // Create the actor
@@ -220,6 +225,7 @@ impl ServerState {
         );
 
         ProjectState {
+            generation,
             compiler,
             preview: handle.preview.clone(),
             analysis: handle.analysis.clone(),
@@ -289,6 +295,8 @@ impl ProjectInsStateExt {
 }
 
 pub struct ProjectState {
+    /// Identifies the projects created by [`ServerState::project`].
+    pub generation: usize,
     pub compiler: LspProjectCompiler,
     pub preview: ProjectPreviewState,
     pub analysis: Arc<Analysis>,
diff --git a/crates/tinymist/src/server.rs b/crates/tinymist/src/server.rs
index 2d4efc1..5c2d390 100644
--- a/crates/tinymist/src/server.rs
+++ b/crates/tinymist/src/server.rs
@@ -22,6 +22,7 @@ use crate::project::{
 };
 use crate::route::ProjectRouteState;
 use crate::task::{ExportTask, FormatTask, UserActionTask};
+use crate::world::vfs::FilesystemEvent;
 use crate::world::TaskInputs;
 use crate::{lsp::init::*, *};
 
@@ -355,6 +356,14 @@ impl ServerState {
             ServerEvent::UnpinPrimaryByPreview => {
                 ready.set_pin_by_preview(false, false);
             }
+            ServerEvent::Fs(generation, event) => {
+                // The watcher of a replaced project can still have events on the way.
+                if ready.project.generation == generation {
+                    ready.project.interrupt(LspInterrupt::Fs(event));
+                } else {
+                    log::info!("ignored a file system event for a replaced project");
+                }
+            }
         }
 
         Ok(())
@@ -385,6 +394,8 @@ impl ServerState {
 pub enum ServerEvent {
     /// Updates the `pinning_by_preview` status to false.
     UnpinPrimaryByPreview,
+    /// Notifies the project of the given generation about file system changes.
+    Fs(usize, FilesystemEvent),
 }
 
 impl ServerState {
-- 
2.43.0


From e69231b547ddf7f8124108b39f3aae6fb8f134c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 16/24] fix: keep the order of memory changes while some are
 delayed

---
 crates/tinymist-project/src/compiler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 9fc301e..5a9b967 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -640,7 +640,9 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 }
 
                 // Otherwise, send upstream update event.
-                // Also, record the logical tick when shadow is dirty.
+                // Also, record the logical tick when shadow is dirty. The shadow is clean again
+                // only after the last one of the delayed events is applied.
+                self.logical_tick += 1;
                 self.dirty_shadow_logical_tick = self.logical_tick;
                 let event = NotifyMessage::UpstreamUpdate(UpstreamUpdateEvent {
                     invalidates: files.into_iter().collect(),
-- 
2.43.0


From f30e4fb3a80f730ce5f6d714808efa3058de7b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 17/24] fix: unpack downloaded packages aside and move them
 into place

A package was unpacked directly into its final directory, whose mere existence
is taken for the package being there. Other threads and processes, or the next
run after a crash, therefore took a partially unpacked directory for the package.
---
 crates/tinymist-package/src/registry/http.rs | 56 +++++++++++++++++---
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/crates/tinymist-package/src/registry/http.rs b/crates/tinymist-package/src/registry/http.rs
index 7d8bc1d..a00b4a8 100644
--- a/crates/tinymist-package/src/registry/http.rs
+++ b/crates/tinymist-package/src/registry/http.rs
@@ -1,6 +1,7 @@
 //! Http registry for tinymist.
 
-use std::path::Path;
+use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::{Arc, OnceLock};
 
 use parking_lot::Mutex;
@@ -294,18 +295,59 @@ impl PackageStorage {
                 Err(err) => return Err(PackageError::NetworkFailed(Some(eco_format!("{err}")))),
             };
 
+            // Unpacks to a temporary directory first, so that nobody (another thread,
+            // another process, or we after a crash) takes a partially unpacked
+            // directory for the package.
+            let temp_dir = create_temp_dir(package_dir).map_err(|err| {
+                PackageError::Other(Some(eco_format!(
+                    "failed to create a directory to unpack the package: {err}"
+                )))
+            })?;
+
             let decompressed = flate2::read::GzDecoder::new(reader);
-            tar::Archive::new(decompressed)
-                .unpack(package_dir)
-                .map_err(|err| {
-                    std::fs::remove_dir_all(package_dir).ok();
-                    PackageError::MalformedArchive(Some(eco_format!("{err}")))
-                })
+            let unpacked = tar::Archive::new(decompressed)
+                .unpack(&temp_dir)
+                .map_err(|err| PackageError::MalformedArchive(Some(eco_format!("{err}"))))
+                .and_then(|()| match std::fs::rename(&temp_dir, package_dir) {
+                    // Someone else was faster.
+                    Err(err) if !package_dir.exists() => Err(PackageError::Other(Some(
+                        eco_format!("failed to move the unpacked package: {err}"),
+                    ))),
+                    Ok(()) | Err(_) => Ok(()),
+                });
+
+            if temp_dir.exists() {
+                std::fs::remove_dir_all(&temp_dir).ok();
+            }
+            unpacked
         })
         .ok_or_else(|| PackageError::Other(Some(eco_format!("cannot spawn http thread"))))?
     }
 }
 
+/// Creates a fresh temporary directory beside the given package directory.
+fn create_temp_dir(package_dir: &Path) -> std::io::Result<PathBuf> {
+    static NEXT_ID: AtomicUsize = AtomicUsize::new(0);
+
+    let parent = package_dir.parent().unwrap_or(Path::new("."));
+    std::fs::create_dir_all(parent)?;
+
+    let version = package_dir.file_name().unwrap_or_default();
+    let pid = std::process::id();
+    loop {
+        let id = NEXT_ID.fetch_add(1, Ordering::Relaxed);
+        // Names that start with a dot are skipped when listing local packages.
+        let temp_dir = parent.join(format!(".tmp-{}-{pid}-{id}", version.to_string_lossy()));
+
+        match std::fs::create_dir(&temp_dir) {
+            Ok(()) => return Ok(temp_dir),
+            // Left behind by a process that crashed and had the same id.
+            Err(err) if err.kind() == std::io::ErrorKind::AlreadyExists => {}
+            Err(err) => return Err(err),
+        }
+    }
+}
+
 pub(crate) fn threaded_http<T: Send + Sync>(
     url: &str,
     cert_path: Option<&Path>,
-- 
2.43.0


From 81a7d3f85268e92c8565b3d768e53827190dfed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 18/24] fix: render the latest document when a full render is
 requested

---
 crates/typst-preview/src/actor/render.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/typst-preview/src/actor/render.rs b/crates/typst-preview/src/actor/render.rs
index c6f7a86..1698ac4 100644
--- a/crates/typst-preview/src/actor/render.rs
+++ b/crates/typst-preview/src/actor/render.rs
@@ -151,14 +151,13 @@ impl RenderActor {
                 continue;
             };
 
+            // A full render can be requested together with the incremental renders, so the
+            // renderer must catch up with the latest document in any case.
+            let delta = self.renderer.pack_delta(&document);
             let data = if has_full_render {
-                if let Some(data) = self.renderer.pack_current() {
-                    data
-                } else {
-                    self.renderer.pack_delta(&document)
-                }
+                self.renderer.pack_current().unwrap_or(delta)
             } else {
-                self.renderer.pack_delta(&document)
+                delta
             };
             let Ok(_) = self.svg_sender.send(data) else {
                 log::info!("RenderActor: svg_sender is dropped");
-- 
2.43.0


From f96c2602a4b3d0cbf66fbf37d9191f8f91e86c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 19/24] fix: keep the preview editor actor running after a jump
 by span

---
 crates/typst-preview/src/actor/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/typst-preview/src/actor/editor.rs b/crates/typst-preview/src/actor/editor.rs
index 6a441d9..efa8959 100644
--- a/crates/typst-preview/src/actor/editor.rs
+++ b/crates/typst-preview/src/actor/editor.rs
@@ -189,7 +189,7 @@ impl<T: EditorServer> EditorActor<T> {
                             self.source_scroll_by_span(req.span)
                                 .await;
 
-                            false
+                            true
                         },
                         EditorActorRequest::CompileStatus(status) => {
                             self.editor_conn.resp_ctl_plane("CompileStatus", ControlPlaneResponse::CompileStatus(status)).await
-- 
2.43.0


From 79fc9c144bbe5d483575ad41877afb494ea189c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 20/24] fix: keep the ids of the interned spans when collecting
 old ones

---
 crates/typst-preview/src/debug_loc.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/typst-preview/src/debug_loc.rs b/crates/typst-preview/src/debug_loc.rs
index 42c7314..35b5a1f 100644
--- a/crates/typst-preview/src/debug_loc.rs
+++ b/crates/typst-preview/src/debug_loc.rs
@@ -87,6 +87,8 @@ impl SpanInterner {
 
 pub struct SpanInternerImpl {
     lifetime: usize,
+    /// The number of the collected spans, which precede the spans in `span2id`.
+    collected: usize,
     span2id: IndexSet<(usize, SourceSpan)>,
 }
 
@@ -102,14 +104,19 @@ impl SpanInternerImpl {
     pub fn new() -> Self {
         Self {
             lifetime: 1,
+            collected: 0,
             span2id: IndexSet::new(),
         }
     }
 
     pub fn reset(&mut self) {
         self.lifetime += 1;
+        let len = self.span2id.len();
         self.span2id
             .retain(|(id, _)| self.lifetime - id < GARAGE_COLLECT_THRESHOLD);
+        // The spans are ordered by their lifetime, so the collected spans are the first
+        // ones. The ids of the others must not change.
+        self.collected += len - self.span2id.len();
     }
 
     pub fn span_by_str(&self, str: &str) -> InternQuery<SourceSpan> {
@@ -121,8 +128,9 @@ impl SpanInternerImpl {
             InternQuery::UseAfterFree
         } else {
             InternQuery::Ok(
-                self.span2id
-                    .get_index(id.id as usize)
+                (id.id as usize)
+                    .checked_sub(self.collected)
+                    .and_then(|idx| self.span2id.get_index(idx))
                     .map(|(_, span)| span)
                     .copied(),
             )
@@ -134,6 +142,6 @@ impl SpanInternerImpl {
         let (idx, _) = self.span2id.insert_full(item);
         // combine lifetime
 
-        InternId::new(self.lifetime, idx)
+        InternId::new(self.lifetime, self.collected + idx)
     }
 }
-- 
2.43.0


From 9da63b82d483c01cc003b95a57a9c7179bb69cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 21/24] fix: kill all previews when no task id is given

---
 crates/tinymist/src/cmd.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/tinymist/src/cmd.rs b/crates/tinymist/src/cmd.rs
index b88a442..a956e1e 100644
--- a/crates/tinymist/src/cmd.rs
+++ b/crates/tinymist/src/cmd.rs
@@ -357,12 +357,11 @@ impl ServerState {
     /// Kill a preview instance.
     #[cfg(feature = "preview")]
     pub fn kill_preview(&mut self, mut args: Vec<JsonValue>) -> AnySchedulableResponse {
-        let task_id = get_arg!(args[0] as String);
-
         if args.is_empty() {
             return self.preview.kill_all();
         }
 
+        let task_id = get_arg!(args[0] as String);
         self.preview.kill(task_id)
     }
 
-- 
2.43.0


From e35df6a8fb1f7aca38c69c4b6c6bc1ccfee8f8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 22/24] fix: ignore the interrupts of a removed project

---
 crates/tinymist-project/src/compiler.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 5a9b967..71cfe38 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -458,12 +458,16 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         primary: &'a mut ProjectInsState<F, Ext>,
         dedicates: &'a mut [ProjectInsState<F, Ext>],
         id: &ProjectInsId,
-    ) -> &'a mut ProjectInsState<F, Ext> {
+    ) -> Option<&'a mut ProjectInsState<F, Ext>> {
         if id == &primary.id {
-            return primary;
+            return Some(primary);
         }
 
-        dedicates.iter_mut().find(|e| e.id == *id).unwrap()
+        let proj = dedicates.iter_mut().find(|e| e.id == *id);
+        if proj.is_none() {
+            log::warn!("ProjectCompiler: project not found {id:?}");
+        }
+        proj
     }
 
     /// Clear all dedicate projects.
@@ -525,6 +529,9 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         match intr {
             Interrupt::Compile(id) => {
                 let proj = Self::find_project(&mut self.primary, &mut self.dedicates, &id);
+                let Some(proj) = proj else {
+                    return;
+                };
                 // Increment the revision anyway.
                 proj.verse.increment_revision(|verse| {
                     verse.flush();
@@ -535,6 +542,9 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
             Interrupt::Compiled(artifact) => {
                 let proj =
                     Self::find_project(&mut self.primary, &mut self.dedicates, artifact.id());
+                let Some(proj) = proj else {
+                    return;
+                };
 
                 let processed = proj.process_compile(artifact);
 
@@ -553,6 +563,9 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
             }
             Interrupt::ChangeTask(id, change) => {
                 let proj = Self::find_project(&mut self.primary, &mut self.dedicates, &id);
+                let Some(proj) = proj else {
+                    return;
+                };
                 proj.verse.increment_revision(|verse| {
                     if let Some(inputs) = change.inputs.clone() {
                         verse.set_inputs(inputs);
-- 
2.43.0


From e09162c2b6608b6cec0406dc3ed112d0f59c67dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 23/24] fix: drop the diagnostics of the removed projects

---
 crates/tinymist/src/project.rs      | 28 +++++++++++++++++++++++++---
 crates/tinymist/src/tool/project.rs |  1 +
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist/src/project.rs b/crates/tinymist/src/project.rs
index 10fa778..fdde756 100644
--- a/crates/tinymist/src/project.rs
+++ b/crates/tinymist/src/project.rs
@@ -35,7 +35,7 @@ use tinymist_query::{
     CheckRequest, CompilerQueryRequest, DiagnosticsMap, LocalContext, SemanticRequest,
 };
 use tinymist_render::PeriscopeRenderer;
-use tinymist_std::{error::prelude::*, ImmutPath};
+use tinymist_std::{error::prelude::*, hash::FxHashSet, ImmutPath};
 use tokio::sync::mpsc;
 use typst::{diag::FileResult, foundations::Bytes, layout::Position as TypstPosition};
 
@@ -104,6 +104,9 @@ impl ServerState {
         primary.ext.notified_revision = old_revision.get();
 
         // todo: the old dedicate projects should be transferred.
+        for proj in &old_project.compiler.dedicates {
+            proj.handler.notify_removed(&proj.id);
+        }
 
         let snapshot = FileChangeSet::new_inserts(
             self.memory_changes
@@ -184,6 +187,7 @@ impl ServerState {
 
             status_revision: Mutex::default(),
             notified_revision: Mutex::default(),
+            removed: Arc::default(),
         });
 
         let export_target = config.export_target;
@@ -419,6 +423,8 @@ pub struct CompileHandlerImpl {
 
     pub(crate) status_revision: Mutex<FxHashMap<ProjectInsId, usize>>,
     pub(crate) notified_revision: Mutex<FxHashMap<ProjectInsId, usize>>,
+    /// The removed projects, whose compilations may be still running.
+    pub(crate) removed: Arc<Mutex<FxHashSet<ProjectInsId>>>,
 }
 
 pub trait ProjectClient: Send + Sync + 'static {
@@ -482,12 +488,18 @@ impl CompileHandlerImpl {
 
             log::trace!("notify diagnostics({dv:?}): {diagnostics:#?}");
 
+            // Locks until the diagnostics are sent, so that a removal comes after them.
+            let removed = self.removed.lock();
+            if removed.contains(&dv.id) {
+                return;
+            }
             self.editor_tx
                 .send(EditorRequest::Diag(dv, Some(diagnostics)))
                 .log_error("failed to send diagnostics");
         } else {
             let snap = art.clone();
             let editor_tx = self.editor_tx.clone();
+            let removed = self.removed.clone();
             let analysis = self.analysis.clone();
             rayon::spawn(move || {
                 let world = snap.world().clone();
@@ -500,6 +512,10 @@ impl CompileHandlerImpl {
 
                 log::trace!("notify diagnostics({dv:?}): {diagnostics:#?}");
 
+                let removed = removed.lock();
+                if removed.contains(&dv.id) {
+                    return;
+                }
                 editor_tx
                     .send(EditorRequest::Diag(dv, Some(diagnostics)))
                     .log_error("failed to send diagnostics");
@@ -570,6 +586,11 @@ impl CompileHandler<LspCompilerFeat, ProjectInsStateExt> for CompileHandlerImpl
     }
 
     fn status(&self, revision: usize, rep: CompileReport) {
+        if matches!(rep.status, tinymist_project::CompileStatusEnum::Compiling) {
+            // The project is started again with the same id.
+            self.removed.lock().remove(&rep.id);
+        }
+
         {
             let mut n_revs = self.status_revision.lock();
             let n_rev = n_revs.entry(rep.id.clone()).or_default();
@@ -608,8 +629,9 @@ impl CompileHandler<LspCompilerFeat, ProjectInsStateExt> for CompileHandlerImpl
         self.notified_revision.lock().remove(id);
         self.status_revision.lock().remove(id);
 
-        // todo: race condition with notify_compile?
-        // remove diagnostics
+        // remove diagnostics, also of the compilations that are still running
+        let mut removed = self.removed.lock();
+        removed.insert(id.clone());
         self.editor_tx
             .send(EditorRequest::Removed(id.clone()))
             .log_error("failed to remove diagnostics");
diff --git a/crates/tinymist/src/tool/project.rs b/crates/tinymist/src/tool/project.rs
index 302de72..eebdb22 100644
--- a/crates/tinymist/src/tool/project.rs
+++ b/crates/tinymist/src/tool/project.rs
@@ -461,6 +461,7 @@ where
         analysis: opts.analysis,
         status_revision: Mutex::default(),
         notified_revision: Mutex::default(),
+        removed: Arc::default(),
     });
 
     let mut compiler = ProjectCompiler::new(
-- 
2.43.0


From a0319be7e76ac41a8ac55568d8d303382662c5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:07 +0000
Subject: [PATCH 24/24] fix: close the preview of a browser once sending to it
 fails

---
 crates/typst-preview/src/actor/webview.rs | 24 +++++++++-----
 crates/typst-preview/src/lib.rs           | 39 +++++++++++++----------
 2 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/crates/typst-preview/src/actor/webview.rs b/crates/typst-preview/src/actor/webview.rs
index deba25d..e2f6789 100644
--- a/crates/typst-preview/src/actor/webview.rs
+++ b/crates/typst-preview/src/actor/webview.rs
@@ -93,13 +93,17 @@ impl<
                     match msg {
                         WebviewActorRequest::SrcToDocJump(jump_info) => {
                             let msg = positions_req("jump", jump_info);
-                            self.webview_websocket_conn.send(Message::Binary(msg.into_bytes()))
-                              .await.log_error("WebViewActor");
+                            let sent = self.webview_websocket_conn.send(Message::Binary(msg.into_bytes())).await;
+                            if sent.log_error("WebViewActor").is_none() {
+                                break;
+                            }
                         }
                         WebviewActorRequest::ViewportPosition(jump_info) => {
                             let msg = position_req("viewport", jump_info);
-                            self.webview_websocket_conn.send(Message::Binary(msg.into_bytes()))
-                              .await.log_error("WebViewActor");
+                            let sent = self.webview_websocket_conn.send(Message::Binary(msg.into_bytes())).await;
+                            if sent.log_error("WebViewActor").is_none() {
+                                break;
+                            }
                         }
                         // WebviewActorRequest::CursorPosition(jump_info) => {
                         //     let msg = position_req("cursor", jump_info);
@@ -108,15 +112,19 @@ impl<
                         WebviewActorRequest::CursorPaths(jump_info) => {
                             let json = serde_json::to_string(&jump_info).unwrap();
                             let msg = format!("cursor-paths,{json}");
-                            self.webview_websocket_conn.send(Message::Binary(msg.into_bytes()))
-                              .await.log_error("WebViewActor");
+                            let sent = self.webview_websocket_conn.send(Message::Binary(msg.into_bytes())).await;
+                            if sent.log_error("WebViewActor").is_none() {
+                                break;
+                            }
                         }
                     }
                 }
                 Some(svg) = self.svg_receiver.recv() => {
                     log::trace!("WebviewActor: received svg from renderer");
-                    self.webview_websocket_conn.send(Message::Binary(svg))
-                    .await.log_error("WebViewActor");
+                    let sent = self.webview_websocket_conn.send(Message::Binary(svg)).await;
+                    if sent.log_error("WebViewActor").is_none() {
+                        break;
+                    }
                 }
                 Some(msg) = self.webview_websocket_conn.next() => {
                     log::trace!("WebviewActor: received message from websocket: {:?}", msg);
diff --git a/crates/typst-preview/src/lib.rs b/crates/typst-preview/src/lib.rs
index 3c8cbad..ce9af2d 100644
--- a/crates/typst-preview/src/lib.rs
+++ b/crates/typst-preview/src/lib.rs
@@ -97,20 +97,35 @@ impl Previewer {
             let h = conn_handler.clone();
             let alive_tx = alive_tx.clone();
             tokio::spawn(async move {
+                struct FinallySend(mpsc::UnboundedSender<()>);
+                impl Drop for FinallySend {
+                    fn drop(&mut self) {
+                        let _ = self.0.send(());
+                    }
+                }
+
+                let _send = FinallySend(alive_tx);
+
                 let conn: C = caster(conn.await).unwrap();
                 tokio::pin!(conn);
 
                 if h.enable_partial_rendering {
-                    conn.send(WsMessage::Binary("partial-rendering,true".into()))
-                        .await
-                        .log_error("SendPartialRendering");
+                    let sent = conn
+                        .send(WsMessage::Binary("partial-rendering,true".into()))
+                        .await;
+                    if sent.log_error("SendPartialRendering").is_none() {
+                        return;
+                    }
                 }
                 if !h.invert_colors.is_empty() {
-                    conn.send(WsMessage::Binary(
-                        format!("invert-colors,{}", h.invert_colors).into(),
-                    ))
-                    .await
-                    .log_error("SendInvertColor");
+                    let sent = conn
+                        .send(WsMessage::Binary(
+                            format!("invert-colors,{}", h.invert_colors).into(),
+                        ))
+                        .await;
+                    if sent.log_error("SendInvertColor").is_none() {
+                        return;
+                    }
                 }
                 let actor::webview::Channels { svg } =
                     actor::webview::WebviewActor::<'_, C>::set_up_channels();
@@ -138,14 +153,6 @@ impl Previewer {
                 );
                 tokio::spawn(outline_render_actor.run());
 
-                struct FinallySend(mpsc::UnboundedSender<()>);
-                impl Drop for FinallySend {
-                    fn drop(&mut self) {
-                        let _ = self.0.send(());
-                    }
-                }
-
-                let _send = FinallySend(alive_tx);
                 webview_actor.run().await;
             })
         };
-- 
2.43.0

