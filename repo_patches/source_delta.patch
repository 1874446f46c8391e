From c36b6192c0b86e0c347eb9e0ee0d093a53b68401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 01/20] fix: MemoryVfs reports modification times in seconds,
 as FileMetadata documents

---
 projects/oak-vfs/src/vfs/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-vfs/src/vfs/memory.rs b/projects/oak-vfs/src/vfs/memory.rs
index 1f0e825..00af363 100644
--- a/projects/oak-vfs/src/vfs/memory.rs
+++ b/projects/oak-vfs/src/vfs/memory.rs
@@ -80,7 +80,7 @@ impl MemoryVfs {
         // Here we use a simple timestamp or 0 if not available
         #[cfg(not(target_arch = "wasm32"))]
         {
-            std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap_or_default().as_millis() as u64
+            std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap_or_default().as_secs()
         }
         #[cfg(target_arch = "wasm32")]
         {
-- 
2.43.0


From c338f840b69cc0c8d418ccdce9da9150751d6e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 02/20] fix: GlobalSymbolTable updates are serialized and keep
 other files' symbols of the same name

---
 projects/oak-resolver/src/lib.rs | 55 +++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/projects/oak-resolver/src/lib.rs b/projects/oak-resolver/src/lib.rs
index c811aba..4f447f0 100644
--- a/projects/oak-resolver/src/lib.rs
+++ b/projects/oak-resolver/src/lib.rs
@@ -4,12 +4,12 @@
 //! This crate provides traits and implementations for resolving module imports
 //! and managing global symbol tables across a workspace.
 
-use dashmap::DashMap;
+use dashmap::{DashMap, mapref::entry::Entry};
 use oak_symbols::SymbolInformation;
-use std::path::PathBuf;
+use std::{collections::HashMap, path::PathBuf};
 use url::Url;
 
-use std::sync::RwLock;
+use std::sync::{Mutex, PoisonError, RwLock};
 
 /// Trait for resolving module imports to file URIs.
 pub trait ModuleResolver: Send + Sync {
@@ -68,32 +68,47 @@ impl ModuleResolver for StandardResolver {
 pub struct GlobalSymbolTable {
     /// Map of URI to symbols defined in that file.
     file_symbols: DashMap<String, Vec<SymbolInformation>>,
-    /// Map of fully qualified name to symbol information.
-    qualified_symbols: DashMap<String, SymbolInformation>,
+    /// Map of fully qualified name to the symbols of that name, each with the URI of the file defining it.
+    qualified_symbols: DashMap<String, Vec<(String, SymbolInformation)>>,
+    /// Serializes updates, so that both maps always agree.
+    update_lock: Mutex<()>,
 }
 
 impl GlobalSymbolTable {
     /// Creates a new, empty `GlobalSymbolTable`.
     pub fn new() -> Self {
-        Self { file_symbols: DashMap::new(), qualified_symbols: DashMap::new() }
+        Self { file_symbols: DashMap::new(), qualified_symbols: DashMap::new(), update_lock: Mutex::new(()) }
     }
 
     /// Add or update symbols for a file.
     pub fn update_file_symbols(&self, uri: String, symbols: Vec<SymbolInformation>) {
-        // Remove old qualified symbols for this file
-        if let Some((_, old_symbols)) = self.file_symbols.remove(&uri) {
-            for sym in old_symbols {
-                let fqn = self.make_qualified_name(&sym);
-                self.qualified_symbols.remove(&fqn);
-            }
-        }
+        let _guard = self.update_lock.lock().unwrap_or_else(PoisonError::into_inner);
 
-        // Add new symbols
+        let mut by_name: HashMap<String, Vec<SymbolInformation>> = HashMap::new();
         for sym in &symbols {
-            let fqn = self.make_qualified_name(sym);
-            self.qualified_symbols.insert(fqn, sym.clone());
+            by_name.entry(self.make_qualified_name(sym)).or_default().push(sym.clone());
+        }
+        let old_symbols = self.file_symbols.insert(uri.clone(), symbols).unwrap_or_default();
+
+        // Put the new symbols in place of this file's old ones of the same name
+        for (fqn, new_symbols) in &by_name {
+            let mut entry = self.qualified_symbols.entry(fqn.clone()).or_default();
+            entry.retain(|(owner, _)| *owner != uri);
+            entry.extend(new_symbols.iter().map(|sym| (uri.clone(), sym.clone())));
+        }
+
+        // Remove this file's symbols whose names are gone, and no other file's
+        for sym in old_symbols {
+            let fqn = self.make_qualified_name(&sym);
+            if !by_name.contains_key(&fqn) {
+                if let Entry::Occupied(mut entry) = self.qualified_symbols.entry(fqn) {
+                    entry.get_mut().retain(|(owner, _)| *owner != uri);
+                    if entry.get().is_empty() {
+                        entry.remove();
+                    }
+                }
+            }
         }
-        self.file_symbols.insert(uri, symbols);
     }
 
     fn make_qualified_name(&self, sym: &SymbolInformation) -> String {
@@ -104,8 +119,10 @@ impl GlobalSymbolTable {
     }
 
     /// Lookup a symbol by its fully qualified name.
+    ///
+    /// If several files define the name, the most recently updated one wins.
     pub fn lookup(&self, fqn: &str) -> Option<SymbolInformation> {
-        self.qualified_symbols.get(fqn).map(|r| r.value().clone())
+        self.qualified_symbols.get(fqn).and_then(|r| r.value().last().map(|(_, sym)| sym.clone()))
     }
 
     /// Get all symbols defined in a specific file.
@@ -115,7 +132,7 @@ impl GlobalSymbolTable {
 
     /// Find all symbols matching a query (for workspace/symbol).
     pub fn query(&self, query: &str) -> Vec<SymbolInformation> {
-        self.qualified_symbols.iter().filter(|r| r.key().contains(query)).map(|r| r.value().clone()).collect()
+        self.qualified_symbols.iter().filter(|r| r.key().contains(query)).flat_map(|r| r.value().iter().map(|(_, sym)| sym.clone()).collect::<Vec<_>>()).collect()
     }
 }
 
-- 
2.43.0


From fb0e2749fede1c62884cee0ade2f806763ff795f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 03/20] fix: DiskWatcher::unwatch_all stops watching all paths

---
 projects/oak-vfs/src/vfs/watch.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/projects/oak-vfs/src/vfs/watch.rs b/projects/oak-vfs/src/vfs/watch.rs
index 7d6f732..4802116 100644
--- a/projects/oak-vfs/src/vfs/watch.rs
+++ b/projects/oak-vfs/src/vfs/watch.rs
@@ -24,6 +24,8 @@ pub trait VfsWatcher {
 /// A watcher implementation that watches files on disk.
 pub struct DiskWatcher {
     watcher: notify::RecommendedWatcher,
+    /// The paths being watched.
+    watched: Vec<PathBuf>,
 }
 
 impl DiskWatcher {
@@ -48,20 +50,37 @@ impl DiskWatcher {
                 }
             }
         })?;
-        Ok(Self { watcher })
+        Ok(Self { watcher, watched: Vec::new() })
     }
 }
 
 impl VfsWatcher for DiskWatcher {
     fn watch(&mut self, uri: &str) -> Result<()> {
-        self.watcher.watch(PathBuf::from(uri).as_path(), RecursiveMode::Recursive)
+        let path = PathBuf::from(uri);
+        self.watcher.watch(&path, RecursiveMode::Recursive)?;
+        if !self.watched.contains(&path) {
+            self.watched.push(path)
+        }
+        Ok(())
     }
 
     fn unwatch(&mut self, uri: &str) -> Result<()> {
-        self.watcher.unwatch(PathBuf::from(uri).as_path())
+        let path = PathBuf::from(uri);
+        self.watcher.unwatch(&path)?;
+        self.watched.retain(|watched| *watched != path);
+        Ok(())
     }
 
     fn unwatch_all(&mut self) -> Result<()> {
-        Ok(())
+        let mut result = Ok(());
+        for path in std::mem::take(&mut self.watched) {
+            if let Err(e) = self.watcher.unwatch(&path) {
+                if !matches!(e.kind, notify::ErrorKind::WatchNotFound) {
+                    self.watched.push(path);
+                    result = result.and(Err(e))
+                }
+            }
+        }
+        result
     }
 }
-- 
2.43.0


From a577894e065944052527ad010cffacf52ca07fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 04/20] fix: LineBuffer cursor positions count characters, not
 bytes

---
 projects/oak-repl/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/projects/oak-repl/src/lib.rs b/projects/oak-repl/src/lib.rs
index e1004e0..4f8c82d 100644
--- a/projects/oak-repl/src/lib.rs
+++ b/projects/oak-repl/src/lib.rs
@@ -104,9 +104,16 @@ impl LineBuffer {
         Self { lines: vec![String::new()], current_line: 0, cursor_pos: 0 }
     }
 
+    /// The byte offset in the current line of the character at `pos`.
+    fn byte_index(&self, pos: usize) -> usize {
+        let line = &self.lines[self.current_line];
+        line.char_indices().nth(pos).map_or(line.len(), |(index, _)| index)
+    }
+
     /// Insert a character at the current cursor position.
     pub fn insert(&mut self, ch: char) {
-        self.lines[self.current_line].insert(self.cursor_pos, ch);
+        let at = self.byte_index(self.cursor_pos);
+        self.lines[self.current_line].insert(at, ch);
         self.cursor_pos += 1;
     }
 
@@ -114,7 +121,8 @@ impl LineBuffer {
     pub fn backspace(&mut self) -> bool {
         if self.cursor_pos > 0 {
             self.cursor_pos -= 1;
-            self.lines[self.current_line].remove(self.cursor_pos);
+            let at = self.byte_index(self.cursor_pos);
+            self.lines[self.current_line].remove(at);
             true
         }
         else if self.current_line > 0 {
-- 
2.43.0


From 93319217bd542a75dcca2280c16f12dafbaeeb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 05/20] fix: OakRepl leaves raw mode on every exit and does not
 panic when output fails

---
 projects/oak-repl/src/lib.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/projects/oak-repl/src/lib.rs b/projects/oak-repl/src/lib.rs
index 4f8c82d..a5cef33 100644
--- a/projects/oak-repl/src/lib.rs
+++ b/projects/oak-repl/src/lib.rs
@@ -156,6 +156,22 @@ impl LineBuffer {
     }
 }
 
+/// Leaves raw mode when the REPL ends, however it ends.
+struct RawMode;
+
+impl RawMode {
+    fn enable() -> io::Result<Self> {
+        terminal::enable_raw_mode()?;
+        Ok(Self)
+    }
+}
+
+impl Drop for RawMode {
+    fn drop(&mut self) {
+        let _ = terminal::disable_raw_mode();
+    }
+}
+
 /// The main REPL engine.
 pub struct OakRepl<H: ReplHandler> {
     /// The handler that implements language-specific logic.
@@ -176,7 +192,7 @@ impl<H: ReplHandler> OakRepl<H> {
         let _highlighter = OakHighlighter::new();
         let exporter = AnsiExporter;
 
-        terminal::enable_raw_mode()?;
+        let _raw_mode = RawMode::enable()?;
 
         loop {
             // Draw the current line
@@ -197,14 +213,14 @@ impl<H: ReplHandler> OakRepl<H> {
             if let Event::Key(key_event) = event::read()? {
                 match key_event.code {
                     KeyCode::Char('c') if key_event.modifiers.contains(KeyModifiers::CONTROL) => {
-                        println!("\nInterrupted");
+                        writeln!(stdout, "\nInterrupted")?;
                         line_buf.clear();
                         is_continuation = false;
                         continue;
                     }
                     KeyCode::Char('d') if key_event.modifiers.contains(KeyModifiers::CONTROL) => {
                         if line_buf.is_empty() {
-                            println!("\nEOF");
+                            writeln!(stdout, "\nEOF")?;
                             break;
                         }
                     }
@@ -216,12 +232,14 @@ impl<H: ReplHandler> OakRepl<H> {
 
                         if self.handler.is_complete(&full_code) {
                             terminal::disable_raw_mode()?;
-                            println!();
+                            writeln!(stdout)?;
 
                             match self.handler.handle_line(&full_code) {
                                 Ok(HandleResult::Exit) => break,
                                 Ok(HandleResult::Continue) => {}
-                                Err(e) => eprintln!("Error: {}", e),
+                                Err(e) => {
+                                    let _ = writeln!(io::stderr(), "Error: {}", e);
+                                }
                             }
 
                             line_buf.clear();
@@ -230,7 +248,7 @@ impl<H: ReplHandler> OakRepl<H> {
                         }
                         else {
                             // Continue multi-line input
-                            println!();
+                            writeln!(stdout)?;
                             line_buf.lines.push(String::new());
                             line_buf.current_line += 1;
                             line_buf.cursor_pos = 0;
-- 
2.43.0


From 78356254255379682833461d405592b35951f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 06/20] fix: OakRepl ignores key release events

---
 projects/oak-repl/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/oak-repl/src/lib.rs b/projects/oak-repl/src/lib.rs
index a5cef33..e66f3ba 100644
--- a/projects/oak-repl/src/lib.rs
+++ b/projects/oak-repl/src/lib.rs
@@ -6,7 +6,7 @@
 
 use crossterm::{
     cursor::MoveToColumn,
-    event::{self, Event, KeyCode, KeyModifiers},
+    event::{self, Event, KeyCode, KeyEventKind, KeyModifiers},
     execute,
     terminal::{self, Clear, ClearType},
 };
@@ -211,6 +211,10 @@ impl<H: ReplHandler> OakRepl<H> {
             stdout.flush()?;
 
             if let Event::Key(key_event) = event::read()? {
+                // Windows and some terminals also report when a key is released
+                if key_event.kind == KeyEventKind::Release {
+                    continue;
+                }
                 match key_event.code {
                     KeyCode::Char('c') if key_event.modifiers.contains(KeyModifiers::CONTROL) => {
                         writeln!(stdout, "\nInterrupted")?;
-- 
2.43.0


From c2240b57f42dff0ca875ebfb8d4c018a336d74ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 07/20] fix: find_str finds matches that span several chunks
 and leaves the cursor where it was

---
 projects/oak-core/src/source/cursor.rs | 54 ++++++++++++++++----------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/projects/oak-core/src/source/cursor.rs b/projects/oak-core/src/source/cursor.rs
index a550e28..fd7b5b2 100644
--- a/projects/oak-core/src/source/cursor.rs
+++ b/projects/oak-core/src/source/cursor.rs
@@ -419,35 +419,47 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
             return Some(self.offset);
         }
 
-        let pat_len = pattern.len();
-        let mut offset = self.offset;
+        let keep = pattern.len() - 1;
         let end = self.source.length();
+        let mut offset = self.offset;
+        // Text before `offset`, too short to hold a match on its own, in which one may still start.
+        self.scratch.clear();
         while offset < end {
-            self.offset = offset;
-            self.ensure_chunk();
-            let text = self.chunk.slice_from(offset);
+            let chunk = self.source.chunk_at(offset);
+            let text = chunk.slice_from(offset);
+            let kept = self.scratch.len();
+            if kept > 0 {
+                let base = offset - kept;
+                let mut head = keep.min(text.len());
+                while !text.is_char_boundary(head) {
+                    head += 1
+                }
+                self.scratch.push_str(&text[..head]);
+                if let Some(pos) = self.scratch.find(pattern) {
+                    return Some(base + pos);
+                }
+                self.scratch.truncate(kept)
+            }
             if let Some(pos) = text.find(pattern) {
                 return Some(offset + pos);
             }
-            let chunk_end = self.chunk.end();
-            if chunk_end >= end {
+            offset = chunk.end();
+            if offset >= end {
                 return None;
             }
-
-            if pat_len > 1 {
-                let keep = pat_len - 1;
-                self.scratch.clear();
-                let tail = text.get(text.len().saturating_sub(keep)..).unwrap_or("");
-                self.scratch.push_str(tail);
-                let tail_abs_start = chunk_end.saturating_sub(tail.len());
-                let next_chunk = self.source.chunk_at(chunk_end);
-                self.scratch.push_str(next_chunk.text);
-                if let Some(pos) = self.scratch.find(pattern) {
-                    return Some(tail_abs_start + pos);
-                }
+            let mut tail = text.len().saturating_sub(keep);
+            while !text.is_char_boundary(tail) {
+                tail += 1
             }
-
-            offset = chunk_end
+            if tail > 0 {
+                self.scratch.clear()
+            }
+            self.scratch.push_str(&text[tail..]);
+            let mut cut = self.scratch.len().saturating_sub(keep);
+            while !self.scratch.is_char_boundary(cut) {
+                cut += 1
+            }
+            self.scratch.drain(..cut);
         }
         None
     }
-- 
2.43.0


From cd0ff782f02d6cdecb19daf652ca95479dbb292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:05 +0000
Subject: [PATCH 08/20] fix: a parse session does not keep the root of a
 dropped generation after a failed parse

---
 projects/oak-core/src/parser/session.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/projects/oak-core/src/parser/session.rs b/projects/oak-core/src/parser/session.rs
index 5723601..9f05df9 100644
--- a/projects/oak-core/src/parser/session.rs
+++ b/projects/oak-core/src/parser/session.rs
@@ -33,8 +33,10 @@ pub struct ParseSession<L: Language + Send + Sync> {
     arena_active: SyntaxArena,
     /// The arena holding the previous tree (used for reuse).
     arena_old: Option<SyntaxArena>,
-    /// Pointer to the root of the last parsed tree.
+    /// Pointer to the root of the last parsed tree, which lives in `arena_active`.
     last_root: Cell<Option<NonNull<()>>>,
+    /// Pointer to the root of the tree before, which lives in `arena_old`.
+    old_root: Option<NonNull<()>>,
     /// Full output from the last lexing pass.
     last_lex: Option<LexOutput<L>>,
 }
@@ -51,7 +53,7 @@ impl<L: Language + Send + Sync> Default for ParseSession<L> {
 impl<L: Language + Send + Sync> ParseSession<L> {
     /// Creates a new parse session.
     pub fn new(capacity: usize) -> Self {
-        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), last_lex: None }
+        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), old_root: None, last_lex: None }
     }
 
     /// Returns the root of the last parsed tree.
@@ -68,14 +70,9 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
     }
 
     fn old_tree(&self) -> Option<&GreenNode<'_, L>> {
-        let ptr = self.last_root.get()?;
-        if self.arena_old.is_some() {
-            // Safety: last_root is guaranteed to be in arena_old after swap_generations
-            unsafe { Some(&*(ptr.as_ptr() as *const GreenNode<'_, L>)) }
-        }
-        else {
-            None
-        }
+        let ptr = self.old_root?;
+        // Safety: old_root is guaranteed to be in arena_old after prepare_generation
+        unsafe { Some(&*(ptr.as_ptr() as *const GreenNode<'_, L>)) }
     }
 
     fn lex_output(&self) -> Option<&LexOutput<L>> {
@@ -86,7 +83,8 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
         // 1. Move active to old. Oldest is dropped.
         self.arena_old = Some(std::mem::replace(&mut self.arena_active, SyntaxArena::new(16)));
 
-        // 2. last_root now correctly points into arena_old.
+        // 2. The last root moves with its arena. A generation that was never committed has none.
+        self.old_root = self.last_root.take();
         // 3. Clear last lex output to force re-lexing for the new generation.
         self.last_lex = None
     }
-- 
2.43.0


From 00f3c0f7e2ebcfeb2ca69e8b0de8dda21d68edff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 09/20] fix: incremental parsing reuses a node only where its
 parser would see the same tokens and has nothing to report

---
 projects/oak-core/src/parser/mod.rs     |  7 ++-
 projects/oak-core/src/parser/session.rs | 25 +++++++-
 projects/oak-core/src/parser/state.rs   | 81 ++++++++++++++++---------
 projects/oak-core/src/tree/cursor.rs    |  8 ++-
 4 files changed, 88 insertions(+), 33 deletions(-)

diff --git a/projects/oak-core/src/parser/mod.rs b/projects/oak-core/src/parser/mod.rs
index eac77cb..58c3180 100644
--- a/projects/oak-core/src/parser/mod.rs
+++ b/projects/oak-core/src/parser/mod.rs
@@ -113,7 +113,12 @@ where
 
     // 5. Commit Generation
     if let Ok(root) = output.result {
-        cache.commit_generation(root)
+        if output.diagnostics.is_empty() {
+            cache.commit_generation(root)
+        }
+        else {
+            cache.commit_faulty_generation(root)
+        }
     }
 
     output
diff --git a/projects/oak-core/src/parser/session.rs b/projects/oak-core/src/parser/session.rs
index 9f05df9..e3f7321 100644
--- a/projects/oak-core/src/parser/session.rs
+++ b/projects/oak-core/src/parser/session.rs
@@ -22,6 +22,13 @@ pub trait ParseCache<L: Language>: LexerCache<L> {
 
     /// Commits the result of a parsing generation.
     fn commit_generation(&self, root: &GreenNode<L>);
+
+    /// Commits the result of a parsing generation that has diagnostics.
+    ///
+    /// The next generation must not reuse its nodes, because their diagnostics would not be reported again.
+    fn commit_faulty_generation(&self, root: &GreenNode<L>) {
+        self.commit_generation(root)
+    }
 }
 
 /// A memory pool that manages the lifecycle of parsing generations.
@@ -35,7 +42,9 @@ pub struct ParseSession<L: Language + Send + Sync> {
     arena_old: Option<SyntaxArena>,
     /// Pointer to the root of the last parsed tree, which lives in `arena_active`.
     last_root: Cell<Option<NonNull<()>>>,
-    /// Pointer to the root of the tree before, which lives in `arena_old`.
+    /// Whether the last parse had diagnostics.
+    last_faulty: Cell<bool>,
+    /// Pointer to the root of the tree to reuse nodes of, which lives in `arena_old`.
     old_root: Option<NonNull<()>>,
     /// Full output from the last lexing pass.
     last_lex: Option<LexOutput<L>>,
@@ -53,7 +62,7 @@ impl<L: Language + Send + Sync> Default for ParseSession<L> {
 impl<L: Language + Send + Sync> ParseSession<L> {
     /// Creates a new parse session.
     pub fn new(capacity: usize) -> Self {
-        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), old_root: None, last_lex: None }
+        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), last_faulty: Cell::new(false), old_root: None, last_lex: None }
     }
 
     /// Returns the root of the last parsed tree.
@@ -84,7 +93,7 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
         self.arena_old = Some(std::mem::replace(&mut self.arena_active, SyntaxArena::new(16)));
 
         // 2. The last root moves with its arena. A generation that was never committed has none.
-        self.old_root = self.last_root.take();
+        self.old_root = self.last_root.take().filter(|_| !self.last_faulty.get());
         // 3. Clear last lex output to force re-lexing for the new generation.
         self.last_lex = None
     }
@@ -92,6 +101,12 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
     fn commit_generation(&self, root: &GreenNode<L>) {
         // Safety: We cast to void pointer because ParseSession manages the lifetime.
         unsafe { self.last_root.set(Some(NonNull::new_unchecked(root as *const _ as *mut ()))) }
+        self.last_faulty.set(false)
+    }
+
+    fn commit_faulty_generation(&self, root: &GreenNode<L>) {
+        self.commit_generation(root);
+        self.last_faulty.set(true)
     }
 }
 
@@ -137,4 +152,8 @@ impl<'a, L: Language, C: ParseCache<L> + ?Sized> ParseCache<L> for &'a mut C {
     fn commit_generation(&self, root: &GreenNode<L>) {
         (**self).commit_generation(root)
     }
+
+    fn commit_faulty_generation(&self, root: &GreenNode<L>) {
+        (**self).commit_faulty_generation(root)
+    }
 }
diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 28f3785..a606975 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -194,6 +194,52 @@ impl<'a, L: Language> IncrementalContext<'a, L> {
     }
 }
 
+/// Number of significant tokens after a reused node that must be unchanged, because its parser may have looked at them.
+const LOOKAHEAD: usize = 2;
+
+impl<L: Language> TokenSource<L> {
+    /// Checks that the token at `offset` is the one that `leaf` was made of.
+    fn matches_leaf(&self, offset: usize, leaf: &GreenLeaf<L>) -> bool {
+        self.peek_at(offset).is_some_and(|t| t.kind == leaf.kind && t.length() == leaf.length as usize)
+    }
+
+    /// Checks that the tokens from `offset` on are the ones that `node` was made of, and returns the offset after them.
+    fn matches_node(&self, mut offset: usize, node: &GreenNode<'_, L>) -> Option<usize> {
+        for child in node.children.iter() {
+            offset = match child {
+                GreenTree::Node(n) => self.matches_node(offset, n)?,
+                GreenTree::Leaf(l) if self.matches_leaf(offset, l) => offset + 1,
+                GreenTree::Leaf(_) => return None,
+            }
+        }
+        Some(offset)
+    }
+
+    /// Checks that the tokens from `offset` on begin like those that follow the node under `cursor`.
+    fn matches_after(&self, mut offset: usize, cursor: &Cursor<'_, L>) -> bool {
+        let mut after = cursor.clone();
+        let mut more = after.step_next();
+        let mut seen = 0;
+        while more {
+            if let GreenTree::Leaf(leaf) = after.current() {
+                if !self.matches_leaf(offset, &leaf) {
+                    return false;
+                }
+                offset += 1;
+                if !L::TokenType::is_ignored(&leaf.kind) {
+                    seen += 1;
+                    if seen == LOOKAHEAD {
+                        return true;
+                    }
+                }
+            }
+            more = after.step()
+        }
+        // The old tree ends here, so only tokens that it does not store may follow.
+        (offset..).map_while(|i| self.peek_at(i)).all(|t| t.length() == 0)
+    }
+}
+
 /// High-level API for parsers, coordinating token supply and tree construction.
 pub struct ParserState<'a, L: Language, S: Source + ?Sized = crate::source::SourceText> {
     /// The token stream being parsed.
@@ -558,34 +604,13 @@ impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
                 if let Some(node) = inc.cursor.as_node() {
                     if node.kind == kind {
                         if !inc.is_dirty(start, end) {
-                            // Verify tokens
-                            let node_len = node.text_len() as usize;
-
-                            // Check token stream
-                            let mut lookahead = 0;
-                            let mut current_pos = new_pos;
-                            let target_new_end = new_pos + node_len;
-
-                            while let Some(t) = self.tokens.peek_at(lookahead) {
-                                if t.span.start != current_pos {
-                                    // Token stream doesn't match expected positions
-                                    break;
-                                }
-                                current_pos = t.span.end;
-
-                                if t.span.end == target_new_end {
-                                    // Found the end!
-                                    let tokens_consumed = lookahead + 1;
-                                    let new_node = deep_clone_node(node, self.sink.arena);
-                                    self.sink.push_node(new_node);
-                                    self.tokens.set_index(current_index + tokens_consumed);
-                                    inc.cursor.step_over();
-                                    return true;
-                                }
-                                else if t.span.end > target_new_end {
-                                    break;
-                                }
-                                lookahead += 1;
+                            // The parser of this node would see exactly the same tokens again
+                            if let Some(tokens_consumed) = self.tokens.matches_node(0, node).filter(|&n| n > 0 && self.tokens.matches_after(n, &inc.cursor)) {
+                                let new_node = deep_clone_node(node, self.sink.arena);
+                                self.sink.push_node(new_node);
+                                self.tokens.set_index(current_index + tokens_consumed);
+                                inc.cursor.step_over();
+                                return true;
                             }
                         }
                     }
diff --git a/projects/oak-core/src/tree/cursor.rs b/projects/oak-core/src/tree/cursor.rs
index 664be62..5696362 100644
--- a/projects/oak-core/src/tree/cursor.rs
+++ b/projects/oak-core/src/tree/cursor.rs
@@ -13,7 +13,7 @@ use crate::{
 ///
 /// It maintains a path from the root to the current node, allowing for
 /// `parent()` navigation and offset tracking.
-#[derive(Debug, Clone)]
+#[derive(Debug)]
 pub struct Cursor<'a, L: Language> {
     /// The current element (Node or Leaf).
     current: GreenTree<'a, L>,
@@ -24,6 +24,12 @@ pub struct Cursor<'a, L: Language> {
     stack: Vec<(&'a GreenNode<'a, L>, usize, usize)>,
 }
 
+impl<'a, L: Language> Clone for Cursor<'a, L> {
+    fn clone(&self) -> Self {
+        Self { current: self.current, offset: self.offset, stack: self.stack.clone() }
+    }
+}
+
 impl<'a, L: Language> Cursor<'a, L> {
     /// Creates a new cursor starting at the given root node.
     pub fn new(root: &'a GreenNode<'a, L>) -> Self {
-- 
2.43.0


From b455fb58c933bcfd291c465999f52e04550aaa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 10/20] fix: syntax arenas free the chunks that the pool cannot
 keep

---
 projects/oak-core/src/memory/arena.rs | 36 +++++++++++++++++++--------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/projects/oak-core/src/memory/arena.rs b/projects/oak-core/src/memory/arena.rs
index cf47615..52c4cd9 100644
--- a/projects/oak-core/src/memory/arena.rs
+++ b/projects/oak-core/src/memory/arena.rs
@@ -60,7 +60,20 @@ const ALIGN: usize = 8;
 // - **Automatic Cleanup:** All chunks are either recycled into this pool or freed when
 //   the `SyntaxArena` is dropped.
 thread_local! {
-    static CHUNK_POOL: RefCell<Vec<NonNull<u8>>> = RefCell::new(Vec::with_capacity(16))
+    static CHUNK_POOL: ChunkPool = ChunkPool(RefCell::new(Vec::with_capacity(16)))
+}
+
+/// The chunks of a pool, which are freed when its thread ends.
+struct ChunkPool(RefCell<Vec<NonNull<u8>>>);
+
+impl Drop for ChunkPool {
+    fn drop(&mut self) {
+        let layout = Layout::from_size_align(CHUNK_SIZE, ALIGN).unwrap();
+        for ptr in self.0.get_mut().drain(..) {
+            // Safety: only chunks of this size and alignment are pooled.
+            unsafe { dealloc(ptr.as_ptr(), layout) }
+        }
+    }
 }
 
 /// A high-performance bump allocator optimized for AST nodes.
@@ -277,7 +290,7 @@ impl SyntaxArena {
     unsafe fn alloc_chunk(size: usize) -> NonNull<u8> {
         // Try to get from pool if size matches the standard chunk size.
         if size == CHUNK_SIZE {
-            let ptr = CHUNK_POOL.try_with(|pool| pool.borrow_mut().pop());
+            let ptr = CHUNK_POOL.try_with(|pool| pool.0.borrow_mut().pop());
 
             if let Ok(Some(ptr)) = ptr {
                 return ptr;
@@ -325,18 +338,19 @@ impl SyntaxArena {
     unsafe fn recycle_chunk(ptr: NonNull<u8>, size: usize) {
         if size == CHUNK_SIZE {
             // Only pool standard-sized chunks to maintain predictability.
-            let _ = CHUNK_POOL.try_with(|pool| {
-                let mut pool = pool.borrow_mut();
-                if pool.len() < 64 {
-                    // Hard limit to prevent memory bloating per thread.
+            let pooled = CHUNK_POOL.try_with(|pool| {
+                let mut pool = pool.0.borrow_mut();
+                // Hard limit to prevent memory bloating per thread.
+                let room = pool.len() < 64;
+                if room {
                     pool.push(ptr)
                 }
+                room
             });
-            // If try_with fails (e.g. during thread destruction), we just leak or dealloc?
-            // Since we can't access pool, we should dealloc.
-            // But try_with error usually means TLS is gone.
-            // We can check error kind. For simplicity, we just fallback to dealloc if pool is unreachable.
-            return;
+            // If try_with fails (e.g. during thread destruction), the pool is unreachable.
+            if pooled == Ok(true) {
+                return;
+            }
         }
         // If not pooled (either because it's a huge chunk or the pool is full/unreachable), deallocate immediately.
         let layout = Layout::from_size_align(size, ALIGN).unwrap();
-- 
2.43.0


From d7befdad110ae209040f6180d12cbc261e8e216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:36 +0000
Subject: [PATCH 11/20] fix: LexerState::rest returns the text up to the end of
 the source

---
 projects/oak-core/src/lexer/mod.rs     |  4 ++--
 projects/oak-core/src/source/cursor.rs | 26 +++++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/projects/oak-core/src/lexer/mod.rs b/projects/oak-core/src/lexer/mod.rs
index 0e17a44..567a42e 100644
--- a/projects/oak-core/src/lexer/mod.rs
+++ b/projects/oak-core/src/lexer/mod.rs
@@ -352,7 +352,7 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
     ///
     /// A string slice containing the remaining text
     pub fn rest(&mut self) -> &str {
-        self.cursor.rest()
+        self.cursor.rest_of_source()
     }
 
     /// Gets the remaining text as a byte slice.
@@ -360,7 +360,7 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
     /// Useful for byte-oriented scanning operations.
     #[inline]
     pub fn rest_bytes(&mut self) -> &[u8] {
-        self.cursor.rest().as_bytes()
+        self.cursor.rest_of_source().as_bytes()
     }
 
     /// Checks if the lexer has consumed all input from the source.
diff --git a/projects/oak-core/src/source/cursor.rs b/projects/oak-core/src/source/cursor.rs
index fd7b5b2..ee745b8 100644
--- a/projects/oak-core/src/source/cursor.rs
+++ b/projects/oak-core/src/source/cursor.rs
@@ -21,6 +21,9 @@ pub struct SourceCursor<'s, S: Source + ?Sized> {
     offset: usize,
     chunk: TextChunk<'s>,
     scratch: String,
+    /// The text from `tail_start` to the end of the source, if it was asked for and is not a single chunk.
+    tail: String,
+    tail_start: usize,
 }
 
 impl<'s, S: Source + ?Sized> fmt::Debug for SourceCursor<'s, S> {
@@ -40,7 +43,7 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
         let end = source.length();
         let offset = offset.min(end);
         let chunk = source.chunk_at(offset);
-        Self { source, offset, chunk, scratch: String::new() }
+        Self { source, offset, chunk, scratch: String::new(), tail: String::new(), tail_start: 0 }
     }
 
     /// Returns the current byte offset of the cursor.
@@ -83,6 +86,27 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
         self.chunk.slice_from(self.offset)
     }
 
+    /// Returns the text from the current position to the end of the source.
+    pub fn rest_of_source(&mut self) -> &str {
+        self.ensure_chunk();
+        let end = self.source.length();
+        if self.chunk.end() >= end {
+            return self.chunk.slice_from(self.offset);
+        }
+        if self.tail.is_empty() || self.offset < self.tail_start {
+            self.tail.clear();
+            self.tail.push_str(self.chunk.slice_from(self.offset));
+            self.tail_start = self.offset;
+            let mut next = self.chunk.end();
+            while next < end {
+                let chunk = self.source.chunk_at(next);
+                self.tail.push_str(chunk.text);
+                next = chunk.end()
+            }
+        }
+        self.tail.get(self.offset - self.tail_start..).unwrap_or("")
+    }
+
     /// Returns the end byte offset of the current chunk.
     pub fn chunk_end(&mut self) -> usize {
         self.ensure_chunk();
-- 
2.43.0


From 1a191212c6bd440da3a5a0cbe7469953ea2fcc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 12/20] fix: advancing by bytes does not stop inside a
 character

---
 projects/oak-core/src/source/cursor.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/oak-core/src/source/cursor.rs b/projects/oak-core/src/source/cursor.rs
index ee745b8..46da883 100644
--- a/projects/oak-core/src/source/cursor.rs
+++ b/projects/oak-core/src/source/cursor.rs
@@ -280,9 +280,13 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
         bytes.get(rel).copied()
     }
 
-    /// Advances the cursor by the specified number of bytes.
+    /// Advances the cursor by the specified number of bytes, and to the end of the character there if it would stop inside one.
     pub fn advance_bytes(&mut self, len: usize) -> usize {
         self.offset = (self.offset + len).min(self.source.length());
+        self.ensure_chunk();
+        while !self.chunk.text.is_char_boundary(self.offset - self.chunk.start) {
+            self.offset += 1
+        }
         self.offset
     }
 
-- 
2.43.0


From 92c25195a007dc40ee219a76f70e2a3d053dbb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 13/20] fix: incremental parsing does not reuse a last node
 that may have consumed the end token

---
 projects/oak-core/src/parser/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index a606975..2044870 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -235,8 +235,8 @@ impl<L: Language> TokenSource<L> {
             }
             more = after.step()
         }
-        // The old tree ends here, so only tokens that it does not store may follow.
-        (offset..).map_while(|i| self.peek_at(i)).all(|t| t.length() == 0)
+        // The old tree ends here, so only tokens that it does not store may follow, and only if the node did not consume them.
+        (offset..).map_while(|i| self.peek_at(i)).all(|t| seen > 0 && t.length() == 0)
     }
 }
 
-- 
2.43.0


From 8e88733075d3e7db77cb5318e675658bf1da5a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:46 +0000
Subject: [PATCH 14/20] fix: test runners report disk errors instead of
 panicking, skipping tests or overwriting expectations

---
 projects/oak-testing/src/building.rs | 16 +++++++++-------
 projects/oak-testing/src/lexing.rs   | 16 +++++++++-------
 projects/oak-testing/src/lib.rs      |  9 +++++++++
 projects/oak-testing/src/parsing.rs  | 16 +++++++++-------
 4 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/projects/oak-testing/src/building.rs b/projects/oak-testing/src/building.rs
index 9974ac5..5260a93 100644
--- a/projects/oak-testing/src/building.rs
+++ b/projects/oak-testing/src/building.rs
@@ -4,7 +4,7 @@
 //! including file-based testing, expected output comparison, timeout handling,
 //! and test result serialization for typed root structures.
 
-use crate::{create_file, json_from_path, source_from_path};
+use crate::{create_file, is_file, json_from_path, source_from_path};
 use oak_core::{Builder, Language, errors::OakError};
 use serde::{Deserialize, Serialize};
 use serde_json::Value as JsonValue;
@@ -96,10 +96,10 @@ impl BuilderTester {
         let mut files = Vec::new();
 
         for entry in WalkDir::new(&self.root) {
-            let entry = entry.unwrap();
+            let entry = entry.map_err(|e| OakError::io_error(e.into(), 0))?;
             let path = entry.path();
 
-            if path.is_file() {
+            if is_file(path)? {
                 if let Some(ext) = path.extension() {
                     let ext_str = ext.to_str().unwrap_or("");
                     if self.extensions.iter().any(|e| e == ext_str) {
@@ -172,14 +172,16 @@ impl BuilderTester {
                     let expected_file = file_path.with_extension(format!("{}.built.json", file_path.extension().unwrap_or_default().to_str().unwrap_or("")));
 
                     // Migration: If the new naming convention file doesn't exist, but the old one does, rename it
-                    if !expected_file.exists() {
+                    let mut has_expected = is_file(&expected_file)?;
+                    if !has_expected {
                         let legacy_file = file_path.with_extension("expected.json");
-                        if legacy_file.exists() {
-                            let _ = std::fs::rename(&legacy_file, &expected_file);
+                        if is_file(&legacy_file)? {
+                            std::fs::rename(&legacy_file, &expected_file).map_err(|e| OakError::io_error(e, 0))?;
+                            has_expected = true
                         }
                     }
 
-                    if expected_file.exists() && !force_regenerated {
+                    if has_expected && !force_regenerated {
                         let expected_json = json_from_path(&expected_file)?;
                         let expected: BuilderTestExpected = serde_json::from_value(expected_json).map_err(|e| OakError::custom_error(e.to_string()))?;
                         if test_result != expected {
diff --git a/projects/oak-testing/src/lexing.rs b/projects/oak-testing/src/lexing.rs
index 33503c2..6337394 100644
--- a/projects/oak-testing/src/lexing.rs
+++ b/projects/oak-testing/src/lexing.rs
@@ -4,7 +4,7 @@
 //! including file-based testing, expected output comparison, and
 //! test result serialization.
 
-use crate::{create_file, json_from_path, source_from_path};
+use crate::{create_file, is_file, json_from_path, source_from_path};
 use oak_core::{
     Language, Lexer, Source, TokenType,
     errors::{OakDiagnostics, OakError},
@@ -100,10 +100,10 @@ impl LexerTester {
         let mut files = Vec::new();
 
         for entry in WalkDir::new(&self.root) {
-            let entry = entry.unwrap();
+            let entry = entry.map_err(|e| OakError::io_error(e.into(), 0))?;
             let path = entry.path();
 
-            if path.is_file() {
+            if is_file(path)? {
                 if let Some(ext) = path.extension() {
                     let ext_str = ext.to_str().unwrap_or("");
                     if self.extensions.iter().any(|e| e == ext_str) {
@@ -217,15 +217,17 @@ impl LexerTester {
         let expected_file = file_path.with_extension(format!("{}.lexed.json", file_path.extension().unwrap_or_default().to_str().unwrap_or("")));
 
         // Migration: If the new naming convention file doesn't exist, but the old one does, rename it
-        if !expected_file.exists() {
+        let mut has_expected = is_file(&expected_file)?;
+        if !has_expected {
             let legacy_file = file_path.with_extension("expected.json");
-            if legacy_file.exists() {
-                let _ = std::fs::rename(&legacy_file, &expected_file);
+            if is_file(&legacy_file)? {
+                std::fs::rename(&legacy_file, &expected_file).map_err(|e| OakError::io_error(e, 0))?;
+                has_expected = true
             }
         }
 
         let mut regenerated = false;
-        if expected_file.exists() && !force_regenerated {
+        if has_expected && !force_regenerated {
             let expected_json = json_from_path(&expected_file)?;
             let expected: LexerTestExpected = serde_json::from_value(expected_json).map_err(|e| OakError::custom_error(e.to_string()))?;
             if test_result != expected {
diff --git a/projects/oak-testing/src/lib.rs b/projects/oak-testing/src/lib.rs
index 060152c..3cf4c30 100644
--- a/projects/oak-testing/src/lib.rs
+++ b/projects/oak-testing/src/lib.rs
@@ -42,3 +42,12 @@ pub fn create_file(path: &Path) -> Result<std::fs::File, OakError> {
     }
     std::fs::File::create(path).map_err(|e| OakError::custom_error(e.to_string()))
 }
+
+/// Whether a file exists at the path; an error if that cannot be determined.
+pub(crate) fn is_file(path: &Path) -> Result<bool, OakError> {
+    match std::fs::metadata(path) {
+        Ok(meta) => Ok(meta.is_file()),
+        Err(e) if matches!(e.kind(), std::io::ErrorKind::NotFound | std::io::ErrorKind::NotADirectory) => Ok(false),
+        Err(e) => Err(OakError::io_error(e, 0)),
+    }
+}
diff --git a/projects/oak-testing/src/parsing.rs b/projects/oak-testing/src/parsing.rs
index cf10154..5d6f56a 100644
--- a/projects/oak-testing/src/parsing.rs
+++ b/projects/oak-testing/src/parsing.rs
@@ -4,7 +4,7 @@
 //! including file-based testing, expected output comparison, timeout handling,
 //! and test result serialization.
 
-use crate::{create_file, json_from_path, source_from_path};
+use crate::{create_file, is_file, json_from_path, source_from_path};
 use oak_core::{Language, Parser, errors::OakError};
 use serde::{Deserialize, Serialize};
 
@@ -97,10 +97,10 @@ impl ParserTester {
         let mut files = Vec::new();
 
         for entry in WalkDir::new(&self.root) {
-            let entry = entry.unwrap();
+            let entry = entry.map_err(|e| OakError::io_error(e.into(), 0))?;
             let path = entry.path();
 
-            if path.is_file() {
+            if is_file(path)? {
                 if let Some(ext) = path.extension() {
                     let ext_str = ext.to_str().unwrap_or("");
                     if self.extensions.iter().any(|e| e == ext_str) {
@@ -169,14 +169,16 @@ impl ParserTester {
                     let expected_file = file_path.with_extension(format!("{}.parsed.json", file_path.extension().unwrap_or_default().to_str().unwrap_or("")));
 
                     // Migration: If the new naming convention file doesn't exist, but the old one does, rename it
-                    if !expected_file.exists() {
+                    let mut has_expected = is_file(&expected_file)?;
+                    if !has_expected {
                         let legacy_file = file_path.with_extension("expected.json");
-                        if legacy_file.exists() {
-                            let _ = std::fs::rename(&legacy_file, &expected_file);
+                        if is_file(&legacy_file)? {
+                            std::fs::rename(&legacy_file, &expected_file).map_err(|e| OakError::io_error(e, 0))?;
+                            has_expected = true
                         }
                     }
 
-                    if expected_file.exists() && !force_regenerated {
+                    if has_expected && !force_regenerated {
                         let expected_json = json_from_path(&expected_file)?;
                         let expected: ParserTestExpected = serde_json::from_value(expected_json).map_err(|e| OakError::custom_error(e.to_string()))?;
                         if test_result != expected {
-- 
2.43.0


From b6383b09b5b431440e4b1c53fd6f274faee7fd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 15/20] fix: do not reuse syntax nodes whose tokens carry
 provenance of the previous generation

---
 projects/oak-core/src/parser/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 2044870..dff0d65 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -204,11 +204,13 @@ impl<L: Language> TokenSource<L> {
     }
 
     /// Checks that the tokens from `offset` on are the ones that `node` was made of, and returns the offset after them.
+    ///
+    /// Leaves with provenance never match: it refers to the arena and to positions of the previous generation.
     fn matches_node(&self, mut offset: usize, node: &GreenNode<'_, L>) -> Option<usize> {
         for child in node.children.iter() {
             offset = match child {
                 GreenTree::Node(n) => self.matches_node(offset, n)?,
-                GreenTree::Leaf(l) if self.matches_leaf(offset, l) => offset + 1,
+                GreenTree::Leaf(l) if l.metadata.is_none() && self.matches_leaf(offset, l) => offset + 1,
                 GreenTree::Leaf(_) => return None,
             }
         }
-- 
2.43.0


From 7e55534868ccb985f600ce1cbc0bad4b6bb0f8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:47 +0000
Subject: [PATCH 16/20] fix: incremental lexing reused tokens that the edit
 extended or removed, and lost diagnostics of reused tokens

---
 projects/oak-core/src/lexer/mod.rs      | 23 ++++++++++++++++++-----
 projects/oak-core/src/parser/session.rs |  4 ++++
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/projects/oak-core/src/lexer/mod.rs b/projects/oak-core/src/lexer/mod.rs
index 567a42e..7cb1c85 100644
--- a/projects/oak-core/src/lexer/mod.rs
+++ b/projects/oak-core/src/lexer/mod.rs
@@ -141,6 +141,13 @@ pub trait LexerCache<L: Language> {
     /// `true` if the cache contains tokens, `false` otherwise
     fn has_tokens(&self) -> bool;
 
+    /// Checks if the cached lexing reported diagnostics.
+    ///
+    /// Its tokens are not reused then, because their diagnostics would not be reported again.
+    fn has_errors(&self) -> bool {
+        false
+    }
+
     /// Gets all cached tokens as a slice.
     ///
     /// # Returns
@@ -168,6 +175,10 @@ impl<'a, L: Language, C: LexerCache<L> + ?Sized> LexerCache<L> for &'a mut C {
         (**self).has_tokens()
     }
 
+    fn has_errors(&self) -> bool {
+        (**self).has_errors()
+    }
+
     fn get_tokens(&self) -> Option<&[Token<L::TokenType>]> {
         (**self).get_tokens()
     }
@@ -282,15 +293,16 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
     ///
     /// A new `LexerState` initialized at the beginning of the source with cache support
     pub fn new_with_cache(source: &'s S, relex_from: usize, cache: &impl LexerCache<L>) -> Self {
-        if !cache.has_tokens() {
+        if !cache.has_tokens() || cache.has_errors() {
             return Self { cursor: SourceCursor::new(source), tokens: vec![], errors: vec![] };
         }
 
         let len = source.length();
         let relex_from = relex_from.min(len);
 
-        // Fast path: fully re-used
-        if relex_from >= len {
+        // Fast path: fully re-used, unless the cached tokens are those of a longer text that was cut at its end
+        let cached_end = cache.count_tokens().checked_sub(1).and_then(|last| cache.get_token(last)).map_or(0, |t| t.span.end);
+        if relex_from >= len && cached_end <= len {
             let mut tokens = Vec::new();
             if let Some(cached) = cache.get_tokens() {
                 tokens.extend_from_slice(cached)
@@ -317,7 +329,8 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
 
         if let Some(cached) = cache.get_tokens() {
             // Binary search for the cut-off point since tokens are sorted by position
-            let idx = cached.partition_point(|t| t.span.end <= relex_from);
+            // (a token that ends there, or is empty there like the end of the stream, may go on in the new text)
+            let idx = cached.partition_point(|t| t.span.end < relex_from);
             let keep = idx.saturating_sub(BACKTRACK_TOKENS);
             if keep > 0 {
                 reused_tokens.extend_from_slice(&cached[..keep])
@@ -331,7 +344,7 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
                 else {
                     break;
                 };
-                if token.span.end <= relex_from {
+                if token.span.end < relex_from {
                     reused_tokens.push(token);
                 }
                 else {
diff --git a/projects/oak-core/src/parser/session.rs b/projects/oak-core/src/parser/session.rs
index e3f7321..a0f694b 100644
--- a/projects/oak-core/src/parser/session.rs
+++ b/projects/oak-core/src/parser/session.rs
@@ -127,6 +127,10 @@ impl<L: Language + Send + Sync> LexerCache<L> for ParseSession<L> {
         self.last_lex.as_ref().and_then(|out| out.result.as_ref().ok()).map(|tokens| !tokens.is_empty()).unwrap_or(false)
     }
 
+    fn has_errors(&self) -> bool {
+        self.last_lex.as_ref().is_some_and(|out| !out.diagnostics.is_empty())
+    }
+
     fn get_tokens(&self) -> Option<&[Token<L::TokenType>]> {
         self.last_lex.as_ref()?.result.as_ref().ok().map(|tokens| &**tokens)
     }
-- 
2.43.0


From b03a3f6194f146ce58ba6a6885866ffe38c8f788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:46 +0000
Subject: [PATCH 17/20] fix: advancing by bytes does not stop inside a
 character where a chunk begins at any byte

---
 projects/oak-core/src/source/cursor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projects/oak-core/src/source/cursor.rs b/projects/oak-core/src/source/cursor.rs
index 46da883..6bae763 100644
--- a/projects/oak-core/src/source/cursor.rs
+++ b/projects/oak-core/src/source/cursor.rs
@@ -282,6 +282,8 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
 
     /// Advances the cursor by the specified number of bytes, and to the end of the character there if it would stop inside one.
     pub fn advance_bytes(&mut self, len: usize) -> usize {
+        // Where a chunk begins is up to the source; from here on it begins at a character.
+        self.ensure_chunk();
         self.offset = (self.offset + len).min(self.source.length());
         self.ensure_chunk();
         while !self.chunk.text.is_char_boundary(self.offset - self.chunk.start) {
-- 
2.43.0


From 0815e2bb23cd26d27cac68073506633993fc4a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:26 +0000
Subject: [PATCH 18/20] fix: pictures of trees show the edges between the nodes

---
 projects/oak-visualize/src/tree/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/oak-visualize/src/tree/mod.rs b/projects/oak-visualize/src/tree/mod.rs
index 4337796..66c530a 100644
--- a/projects/oak-visualize/src/tree/mod.rs
+++ b/projects/oak-visualize/src/tree/mod.rs
@@ -412,7 +412,11 @@ impl TreeLayout {
     /// Recursively add edges from the given node to all its descendants
     fn add_tree_edges(&self, node: &TreeNode, layout: &mut Layout) {
         for child in &node.children {
-            let edge = Edge::new(node.id.clone(), child.id.clone());
+            let points = match (layout.nodes.get(&node.id), layout.nodes.get(&child.id)) {
+                (Some(from), Some(to)) => vec![from.rect.center(), to.rect.center()],
+                _ => Vec::new(),
+            };
+            let edge = Edge::new(node.id.clone(), child.id.clone()).with_points(points);
             layout.add_edge(edge);
 
             // Recursively add edges for children
-- 
2.43.0


From 8addd556368c0b41528fe340690d7d7958c9b8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:27 +0000
Subject: [PATCH 19/20] fix: labels in SVG pictures are escaped

---
 projects/oak-visualize/src/render/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/projects/oak-visualize/src/render/mod.rs b/projects/oak-visualize/src/render/mod.rs
index e704a16..765c986 100644
--- a/projects/oak-visualize/src/render/mod.rs
+++ b/projects/oak-visualize/src/render/mod.rs
@@ -106,6 +106,11 @@ impl ElementStyle {
     }
 }
 
+/// Escapes text for use as the content of an SVG element
+fn escape_text(text: &str) -> String {
+    text.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
+}
+
 /// SVG renderer for layouts
 pub struct SvgRenderer {
     config: RenderConfig,
@@ -234,7 +239,12 @@ impl SvgRenderer {
             let center = rect.center();
             svg.push_str(&format!(
                 r#"    <text x="{}" y="{}" text-anchor="middle" dominant-baseline="central" fill="{}" font-size="{}" font-family="{}" class="label">{}</text>"#,
-                center.x, center.y, text_color, text_size, self.config.font_family, node.label
+                center.x,
+                center.y,
+                text_color,
+                text_size,
+                self.config.font_family,
+                escape_text(&node.label)
             ));
             svg.push('\n')
         }
@@ -304,7 +314,7 @@ impl SvgRenderer {
                 text_color,
                 text_size,
                 self.config.font_family,
-                label
+                escape_text(label)
             ));
             svg.push('\n')
         }
-- 
2.43.0


From 9fd8af7077c3e3c2ee21426c6c64e4008588fecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:27 +0000
Subject: [PATCH 20/20] fix: the hierarchical layout leaves out edges with an
 unknown end, as the other layouts do

---
 projects/oak-visualize/src/graph/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/oak-visualize/src/graph/mod.rs b/projects/oak-visualize/src/graph/mod.rs
index a7cbe15..d632a1b 100644
--- a/projects/oak-visualize/src/graph/mod.rs
+++ b/projects/oak-visualize/src/graph/mod.rs
@@ -515,7 +515,11 @@ impl GraphLayout {
 
         // Calculate in-degrees
         for edge in &graph.edges {
-            *in_degree.get_mut(&edge.to).unwrap() += 1;
+            if graph.nodes.contains_key(&edge.from) {
+                if let Some(degree) = in_degree.get_mut(&edge.to) {
+                    *degree += 1;
+                }
+            }
         }
 
         // Process layers
-- 
2.43.0

