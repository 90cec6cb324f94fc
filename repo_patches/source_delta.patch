From 93e7d7999df68d227e52a65a78565a44daa2a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 01/33] fix: do not stop the server on a failed write, accept
 or cleanup

---
 core/src/server.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index 6da977e..06f9252 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -118,8 +118,9 @@ impl Server {
                     Ok(message) => {
                         let mut index = clients.write().expect("lock client index");
                         let stream = index.get_mut(&client_id).unwrap();
-                        Self::write_client(client_id, stream, &message)
-                            .expect("send response to client");
+                        if let Err(e) = Self::write_client(client_id, stream, &message) {
+                            log::error!("{}", e);
+                        }
                     }
                     Err(e) => log::error!("{}: {:?}", e, raw),
                 },
@@ -176,7 +177,14 @@ impl Server {
         log::trace!("ready to accept incoming connections");
         while let Some(stream) = incoming.next().await {
             log::trace!("incoming connection");
-            let stream = stream.expect("error while accepting a new client");
+            let stream = match stream {
+                Ok(stream) => stream,
+                Err(e) => {
+                    log::error!("error while accepting a new client: {}", e);
+                    future::yield_now().await;
+                    continue;
+                }
+            };
             let sender = sender.clone();
             log::trace!("connection ready");
             sender
@@ -204,7 +212,8 @@ impl Server {
             log::info!("no more client, exiting...");
             if let ConnectionMode::Socket(path) = &self.session.mode {
                 log::trace!("cleaning session device: {}", path.display());
-                fs::remove_file(path).expect("clean session");
+                fs::remove_file(path)
+                    .unwrap_or_else(|e| log::warn!("could not clean session: {}", e));
                 if Session::list().is_empty() {
                     fs::remove_dir(path.parent().unwrap())
                         .unwrap_or_else(|e| log::warn!("could not clean session directory: {}", e));
-- 
2.43.0


From 9edfdf2de343de7b0b795180cff7cec80638d0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 02/33] fix: ignore requests of a client which quit and
 tolerate its disconnection

---
 core/src/server.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index 06f9252..5eb90f5 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -106,14 +106,22 @@ impl Server {
                 }
                 Event::Leave(client_id) => {
                     editor.remove_client(client_id);
+                    // the client is already gone from the index when it asked to quit
                     clients
                         .write()
                         .expect("lock client index")
-                        .remove(&client_id)
-                        .expect("remove client from index");
+                        .remove(&client_id);
                     log::info!("client {}: connection closed", client_id);
                     is_leave_event = true;
                 }
+                Event::Message((client_id, raw))
+                    if !clients
+                        .read()
+                        .expect("lock client index")
+                        .contains_key(&client_id) =>
+                {
+                    log::warn!("request from unknown client {}: {:?}", client_id, raw);
+                }
                 Event::Message((client_id, raw)) => match editor.handle(client_id, &raw) {
                     Ok(message) => {
                         let mut index = clients.write().expect("lock client index");
-- 
2.43.0


From 46b16dbcb996e763b24f9be984f1271a31b14d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 03/33] fix: report unreadable files instead of stopping the
 editor

---
 core/src/editor/buffer.rs | 30 +++++++++++++++++-------------
 core/src/editor/core.rs   | 29 ++++++++++++++++++++---------
 core/src/editor/mod.rs    |  5 +++--
 3 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index d2341b8..dff647d 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -1,6 +1,6 @@
 use std::env::current_dir;
 use std::fs::{self, File};
-use std::io::Read;
+use std::io::{self, Read};
 use std::ops::{Index, Range};
 use std::path::{Path, PathBuf};
 use std::time::SystemTime;
@@ -80,29 +80,33 @@ impl Buffer {
     }
 
     pub fn new_file(filename: &Path) -> Buffer {
+        Buffer::open_file(filename).expect("open file")
+    }
+
+    pub fn open_file(filename: &Path) -> io::Result<Buffer> {
         let absolute_path = if filename.is_absolute() {
             filename.to_owned()
         } else {
-            let mut full_path = current_dir().unwrap();
+            let mut full_path = current_dir()?;
             full_path.push(filename);
-            full_path.canonicalize().unwrap()
+            full_path.canonicalize()?
         };
 
-        let mut file = File::open(&absolute_path).unwrap();
+        let mut file = File::open(&absolute_path)?;
         let mut file_content = String::new();
-        file.read_to_string(&mut file_content).expect("read file");
+        file.read_to_string(&mut file_content)?;
         let last_sync = Some(SystemTime::now());
 
         if !file_content.ends_with('\n') {
             file_content += "\n";
         }
 
-        Buffer {
+        Ok(Buffer {
             source: BufferSource::File(absolute_path),
             content: PieceTable::with_text(file_content),
             last_sync,
             modified: false,
-        }
+        })
     }
 
     pub fn line_count(&self) -> usize {
@@ -142,19 +146,19 @@ impl Buffer {
         true
     }
 
-    pub fn load_from_disk(&mut self) -> bool {
+    pub fn load_from_disk(&mut self) -> io::Result<bool> {
         match self.source {
-            BufferSource::Scratch(_) => true,
+            BufferSource::Scratch(_) => Ok(true),
             BufferSource::File(ref path) => {
                 if !self.is_synced() {
-                    let mut file = File::open(&path).unwrap();
+                    let mut file = File::open(&path)?;
                     let mut content = String::new();
-                    file.read_to_string(&mut content).expect("read file");
+                    file.read_to_string(&mut content)?;
                     self.content.apply_diff(&content);
                     self.last_sync = Some(SystemTime::now());
-                    true
+                    Ok(true)
                 } else {
-                    false
+                    Ok(false)
                 }
             }
         }
diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 5879fd7..df471cf 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -117,6 +117,7 @@ macro_rules! lock {
 #[derive(Debug)]
 pub enum Error {
     BufferNotFound { name: String },
+    FileNotReadable { name: String, reason: String },
     ViewNotFound { view_id: String },
 }
 
@@ -125,6 +126,7 @@ impl std::fmt::Display for Error {
         use Error::*;
         match self {
             BufferNotFound { name } => write!(f, "buffer not found: {}", name),
+            FileNotReadable { name, reason } => write!(f, "cannot read {}: {}", name, reason),
             ViewNotFound { view_id } => write!(f, "view not found: {}", view_id),
         }
     }
@@ -327,9 +329,13 @@ impl Core {
         lock!(self).buffers.insert(name.to_owned(), buffer);
     }
 
-    pub fn open_file(&mut self, buffer_name: &str, filename: &Path) {
-        let buffer = Buffer::new_file(filename);
+    pub fn open_file(&mut self, buffer_name: &str, filename: &Path) -> Result<(), Error> {
+        let buffer = Buffer::open_file(filename).map_err(|e| Error::FileNotReadable {
+            name: buffer_name.to_owned(),
+            reason: e.to_string(),
+        })?;
         lock!(self).buffers.insert(buffer_name.to_owned(), buffer);
+        Ok(())
     }
 
     pub fn add_view(&mut self, view: View) {
@@ -413,7 +419,7 @@ impl Core {
         }
     }
 
-    pub fn edit(&mut self, client_id: usize, name: &str, scratch: bool) {
+    pub fn edit(&mut self, client_id: usize, name: &str, scratch: bool) -> Result<(), Error> {
         // TODO check for same file but different name
         let exists = self.buffer_exists(name);
         let notify_change = if scratch {
@@ -422,7 +428,11 @@ impl Core {
             }
             false
         } else if exists {
-            let reloaded = lock!(self).buffers.get_mut(name).unwrap().load_from_disk();
+            let loaded = lock!(self).buffers.get_mut(name).unwrap().load_from_disk();
+            let reloaded = loaded.map_err(|e| Error::FileNotReadable {
+                name: name.to_owned(),
+                reason: e.to_string(),
+            })?;
             if reloaded {
                 self.debug(&format!("reloaded from disk: {}", name));
             }
@@ -433,7 +443,7 @@ impl Core {
                 absolute.push(name);
                 absolute
             };
-            self.open_file(name, &path);
+            self.open_file(name, &path)?;
             true
         };
 
@@ -451,6 +461,7 @@ impl Core {
                 .collect();
             self.notify_view_update(client_ids);
         }
+        Ok(())
     }
 
     pub fn view(&mut self, client_id: usize, view_id: &str) -> Result<(), Error> {
@@ -708,15 +719,15 @@ impl rlua::UserData for Core {
             "scratch",
             |_, this, (client, name, content): (usize, String, String)| {
                 this.open_scratch(&name, content);
-                this.edit(client, &name, true);
-                Ok(())
+                this.edit(client, &name, true)
+                    .map_err(rlua::Error::external)
             },
         );
         methods.add_method_mut(
             "edit",
             |_, this, (client, name, scratch): (usize, String, bool)| {
-                this.edit(client, &name, scratch);
-                Ok(())
+                this.edit(client, &name, scratch)
+                    .map_err(rlua::Error::external)
             },
         );
         methods.add_method_mut("append_to", |_, this, (buffer, text): (String, String)| {
diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index d8725f6..a41b35f 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -244,8 +244,9 @@ impl Editor {
         client_id: usize,
         params: &<requests::Edit as requests::Request>::Params,
     ) -> Result<<requests::Edit as requests::Request>::Result, Error> {
-        self.core.edit(client_id, &params.name, params.scratch);
-        Ok(())
+        self.core
+            .edit(client_id, &params.name, params.scratch)
+            .map_err(|e| Error::invalid_request(&e.to_string()))
     }
 
     pub fn command_quit(
-- 
2.43.0


From 5de203f726691397374a70aef6549ca14fc403d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 04/33] fix: keep the final newline of a buffer reloaded from
 disk

---
 core/src/editor/buffer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index dff647d..bf4c1a1 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -154,6 +154,9 @@ impl Buffer {
                     let mut file = File::open(&path)?;
                     let mut content = String::new();
                     file.read_to_string(&mut content)?;
+                    if !content.ends_with('\n') {
+                        content.push('\n');
+                    }
                     self.content.apply_diff(&content);
                     self.last_sync = Some(SystemTime::now());
                     Ok(true)
-- 
2.43.0


From f6f1569d32bd59e3dfc565012869e39592c4ee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 05/33] fix: take the menu search literally instead of failing
 on regex syntax

---
 core/src/editor/menu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/editor/menu.rs b/core/src/editor/menu.rs
index 8beb8b3..daab47a 100644
--- a/core/src/editor/menu.rs
+++ b/core/src/editor/menu.rs
@@ -150,7 +150,7 @@ impl MenuFilter {
         let elements: Vec<String> = self
             .search
             .split_whitespace()
-            .map(|e| format!("({})", e))
+            .map(|e| format!("({})", regex::escape(e)))
             .collect();
         let raw_re = format!("(?i){}", elements.join(".*"));
         Regex::new(&raw_re).unwrap()
-- 
2.43.0


From 81f3d1f1eb48f51468cc81804bfdde5aaef1b44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 06/33] fix: register the view created when switching to a
 buffer

---
 core/src/editor/core.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index df471cf..91de6f4 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -474,13 +474,15 @@ impl Core {
             self.notify_view_update(vec![client_id]);
             Ok(())
         } else if self.buffer_exists(view_id) {
+            let view = View::for_buffer(view_id);
+            let key = view.key();
+            if !self.view_exists(&key) {
+                self.add_view(view);
+            }
             {
                 let mut state = lock!(self);
-                let view = Rc::new(RefCell::new(View::for_buffer(view_id)));
-                let key = view.borrow().key();
-                let context = state.clients.get_mut(&client_id).unwrap();
-                context.view = Rc::clone(&view);
-                state.views.entry(key).or_insert(view);
+                let view = Rc::clone(&state.views[&key]);
+                state.clients.get_mut(&client_id).unwrap().view = view;
             }
             self.notify_view_update(vec![client_id]);
             Ok(())
-- 
2.43.0


From a47cb2dfa2e55aee1379f9802920de5ea8474de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 07/33] fix: have a scratch buffer before showing it as the
 last view

---
 core/src/editor/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 91de6f4..5f3b679 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -381,7 +381,7 @@ impl Core {
             }
         }
         if lock!(self).views.is_empty() {
-            if lock!(self).buffers.is_empty() {
+            if !self.buffer_exists(BUFFER_SCRATCH) {
                 self.open_scratch(BUFFER_SCRATCH, String::new());
             }
             self.add_view(View::for_buffer(BUFFER_SCRATCH));
-- 
2.43.0


From 3b9fe50da19ca19bf0d75cfbcdba1ca06adc40ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 08/33] fix: keep every selection inside its buffer when the
 buffer shrinks

---
 core/src/editor/core.rs      | 29 +++++++++++++++--------------
 core/src/editor/selection.rs | 17 ++++-------------
 2 files changed, 19 insertions(+), 27 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 5f3b679..6d88c0a 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -326,7 +326,9 @@ impl Core {
 
     pub fn open_scratch(&mut self, name: &str, content: String) {
         let buffer = Buffer::new_scratch(name.to_owned(), content);
-        lock!(self).buffers.insert(name.to_owned(), buffer);
+        let mut state = lock!(self);
+        state.buffers.insert(name.to_owned(), buffer);
+        Self::clamp_selections(&mut state, name);
     }
 
     pub fn open_file(&mut self, buffer_name: &str, filename: &Path) -> Result<(), Error> {
@@ -434,6 +436,7 @@ impl Core {
                 reason: e.to_string(),
             })?;
             if reloaded {
+                Self::clamp_selections(&mut lock!(self), name);
                 self.debug(&format!("reloaded from disk: {}", name));
             }
             reloaded
@@ -580,19 +583,17 @@ impl Core {
         }
     }
 
-    fn clamp_selections(state: &mut MutexGuard<CoreState>, client_id: usize, bufname: &str) {
+    fn clamp_selections(state: &mut MutexGuard<CoreState>, bufname: &str) {
         let max_offset = state.buffers[bufname].content.max_offset();
-        let ctx = state.clients.get_mut(&client_id).unwrap();
-        let view_key = ctx.view.borrow().key();
-        ctx.selections
-            .get_mut(&view_key)
-            .unwrap()
-            .get_mut(bufname)
-            .unwrap()
-            .iter_mut()
-            .for_each(|s| {
-                s.clamp_to(max_offset);
-            });
+        for (_id, ctx) in state.clients.iter_mut() {
+            for sels_by_buffer in ctx.selections.values_mut() {
+                if let Some(sels) = sels_by_buffer.get_mut(bufname) {
+                    sels.iter_mut().for_each(|s| {
+                        s.clamp_to(max_offset);
+                    });
+                }
+            }
+        }
     }
 
     pub fn delete_selection(&mut self, client_id: usize) -> Vec<String> {
@@ -623,7 +624,7 @@ impl Core {
             // XXX selections reprocessing is made afterwards because of the borrow rules on struct attributes
             // XXX in 2021 edition it should be possible to handle both operations in one pass
             for bufname in modified_buffers {
-                Self::clamp_selections(&mut state, client_id, &bufname);
+                Self::clamp_selections(&mut state, &bufname);
             }
         }
         if !deleted.is_empty() {
diff --git a/core/src/editor/selection.rs b/core/src/editor/selection.rs
index b8f76ba..336979e 100644
--- a/core/src/editor/selection.rs
+++ b/core/src/editor/selection.rs
@@ -37,18 +37,9 @@ impl Selection {
     }
 
     pub fn clamp_to(&mut self, n: usize) -> usize {
-        if n <= self.end() {
-            let delta;
-            if self.anchor < self.cursor {
-                delta = self.cursor - n;
-                self.cursor = n;
-            } else {
-                delta = self.anchor - n;
-                self.anchor = n;
-            }
-            delta
-        } else {
-            0
-        }
+        let delta = self.end().saturating_sub(n);
+        self.anchor = self.anchor.min(n);
+        self.cursor = self.cursor.min(n);
+        delta
     }
 }
-- 
2.43.0


From f593fb8df8cf98102f04b5f3255c34dc337113d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 09/33] fix: show a changed buffer to every client viewing it

---
 core/src/editor/core.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 6d88c0a..37ee78a 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -598,8 +598,8 @@ impl Core {
 
     pub fn delete_selection(&mut self, client_id: usize) -> Vec<String> {
         let mut deleted = Vec::new();
+        let mut modified_buffers = HashSet::new();
         {
-            let mut modified_buffers = HashSet::new();
             let mut state = lock!(self);
             let ctx = &state.clients[&client_id];
             let view_key = ctx.view.borrow().key();
@@ -623,12 +623,16 @@ impl Core {
             }
             // XXX selections reprocessing is made afterwards because of the borrow rules on struct attributes
             // XXX in 2021 edition it should be possible to handle both operations in one pass
-            for bufname in modified_buffers {
-                Self::clamp_selections(&mut state, &bufname);
+            for bufname in &modified_buffers {
+                Self::clamp_selections(&mut state, bufname);
             }
         }
-        if !deleted.is_empty() {
-            self.notify_view_update(vec![client_id]);
+        let clients: HashSet<usize> = modified_buffers
+            .iter()
+            .flat_map(|bufname| self.clients_with_buffer(bufname))
+            .collect();
+        if !clients.is_empty() {
+            self.notify_view_update(clients.into_iter().collect());
         }
         deleted
     }
@@ -723,7 +727,11 @@ impl rlua::UserData for Core {
             |_, this, (client, name, content): (usize, String, String)| {
                 this.open_scratch(&name, content);
                 this.edit(client, &name, true)
-                    .map_err(rlua::Error::external)
+                    .map_err(rlua::Error::external)?;
+                let mut others = this.clients_with_buffer(&name);
+                others.retain(|&id| id != client);
+                this.notify_view_update(others);
+                Ok(())
             },
         );
         methods.add_method_mut(
-- 
2.43.0


From 5a6b5406e3f47b79bb6f34ce813a37496dad4cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 10/33] fix: give the first client selections in every existing
 view

---
 core/src/editor/core.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 37ee78a..464c392 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -299,15 +299,16 @@ impl Core {
             } else {
                 let latest_view = state.views.latest_value().unwrap();
                 let mut selections = HashMap::new();
-                selections.insert(
-                    latest_view.borrow().key(),
-                    latest_view
-                        .borrow()
-                        .buffers()
-                        .iter()
-                        .map(|&b| (b.clone(), vec![Selection::new()]))
-                        .collect(),
-                );
+                for (key, view) in state.views.iter() {
+                    selections.insert(
+                        key.to_owned(),
+                        view.borrow()
+                            .buffers()
+                            .iter()
+                            .map(|&b| (b.clone(), vec![Selection::new()]))
+                            .collect(),
+                    );
+                }
                 ClientContext {
                     view: Rc::clone(latest_view),
                     selections,
-- 
2.43.0


From 5bd29827b3e5655a71ca4519a17f2fd88eb27f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 11/33] fix: read a null result as a success

---
 remote/src/jsonrpc.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/remote/src/jsonrpc.rs b/remote/src/jsonrpc.rs
index acc5fe7..7be8e52 100644
--- a/remote/src/jsonrpc.rs
+++ b/remote/src/jsonrpc.rs
@@ -227,9 +227,11 @@ impl Response {
     where
         T: DeserializeOwned,
     {
-        Ok(match self.result {
-            Some(ref result) => Ok(from_value(result.clone())?),
-            None => Err(self.error.clone().unwrap()),
+        Ok(match (&self.result, &self.error) {
+            (Some(result), _) => Ok(from_value(result.clone())?),
+            (None, Some(error)) => Err(error.clone()),
+            // a null result is read as a missing one
+            (None, None) => Ok(from_value(Value::Null)?),
         })
     }
 
-- 
2.43.0


From 7c20dbab67c5091b4826be82a5cf0f1f1f41858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 12/33] fix: parse every key name which is displayed

---
 remote/src/keys.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/remote/src/keys.rs b/remote/src/keys.rs
index d676d25..d045d02 100644
--- a/remote/src/keys.rs
+++ b/remote/src/keys.rs
@@ -53,7 +53,15 @@ impl FromStr for Key {
         }
 
         match s {
+            "bkspc" => Ok(Key::Backspace),
+            "ret" => Ok(Key::Enter),
             "esc" => Ok(Key::Escape),
+
+            "up" => Ok(Key::Up),
+            "down" => Ok(Key::Down),
+            "left" => Ok(Key::Left),
+            "right" => Ok(Key::Right),
+
             _ => Err(ParseKeyError {
                 raw_source: s.to_owned(),
             }),
-- 
2.43.0


From 504ca296634054a7796de9af4ec4b9f7add5656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 13/33] fix: accept every IPv4 session address and do not stop
 on an invalid one

---
 remote/src/session.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/remote/src/session.rs b/remote/src/session.rs
index 73285fb..a8c58c1 100644
--- a/remote/src/session.rs
+++ b/remote/src/session.rs
@@ -9,7 +9,7 @@ use regex::Regex;
 
 lazy_static! {
     static ref RE_ADDR: Regex =
-        Regex::new(r"^@(?P<address>\w+|\d+\.\d\.\d+\.\d+)?:(?P<port>\d+)$").unwrap();
+        Regex::new(r"^@(?P<address>\w+|\d+\.\d+\.\d+\.\d+)?:(?P<port>\d+)$").unwrap();
 }
 
 #[cfg(unix)]
@@ -24,8 +24,18 @@ pub enum ConnectionMode {
 }
 
 impl ConnectionMode {
+    fn tcp_address(s: &str) -> Option<SocketAddr> {
+        let caps = RE_ADDR.captures(s)?;
+        let address = caps
+            .name("address")
+            .map(|m| m.as_str())
+            .unwrap_or("127.0.0.1");
+        let port = caps.name("port")?.as_str();
+        format!("{}:{}", address, port).parse().ok()
+    }
+
     fn is_tcp(s: &str) -> bool {
-        RE_ADDR.is_match(s)
+        Self::tcp_address(s).is_some()
     }
 }
 
@@ -44,18 +54,9 @@ impl FromStr for ConnectionMode {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         use self::ConnectionMode::*;
-        if let Some(caps) = RE_ADDR.captures(s) {
-            let address = caps
-                .name("address")
-                .map(|m| m.as_str())
-                .unwrap_or("127.0.0.1");
-            let port = caps.name("port").unwrap().as_str();
-            let sock_addr = format!("{}:{}", address, port)
-                .parse()
-                .expect("invalid address");
-            Ok(Tcp(sock_addr))
-        } else {
-            Ok(Socket(s.into()))
+        match Self::tcp_address(s) {
+            Some(sock_addr) => Ok(Tcp(sock_addr)),
+            None => Ok(Socket(s.into())),
         }
     }
 }
-- 
2.43.0


From d8bf2be2ee7a0d6e892ca7a12b44985c54383d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 14/33] fix: do not stop on selecting in a menu without entries

---
 remote/src/connection.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/remote/src/connection.rs b/remote/src/connection.rs
index 5c04872..e24c794 100644
--- a/remote/src/connection.rs
+++ b/remote/src/connection.rs
@@ -22,7 +22,7 @@ pub struct Menu {
 
 impl Menu {
     fn select_next(&mut self) {
-        if self.selected < self.entries.len() - 1 {
+        if self.selected + 1 < self.entries.len() {
             self.selected += 1;
         }
     }
@@ -34,7 +34,10 @@ impl Menu {
     }
 
     fn selected_item(&self) -> &str {
-        &self.entries[self.selected].value
+        self.entries
+            .get(self.selected)
+            .map(|entry| entry.value.as_str())
+            .unwrap_or("")
     }
 }
 
-- 
2.43.0


From e71c5a914052f370066c308d74e9513bdd6e6db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 15/33] fix: report an unreadable line as a connection error

---
 remote/src/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/remote/src/client.rs b/remote/src/client.rs
index e19bb31..37a288a 100644
--- a/remote/src/client.rs
+++ b/remote/src/client.rs
@@ -3,6 +3,7 @@ use crate::session::Session;
 use crate::transport::ServerStream;
 use async_channel::{unbounded, Receiver, Sender};
 use futures_lite::*;
+use serde::de::Error as _;
 
 pub type ClientEventResult = Result<ClientEvent, JsonCodingError>;
 
@@ -37,8 +38,7 @@ impl Client {
         };
         fn parse_line(x: io::Result<String>) -> Result<ClientEvent, JsonCodingError> {
             log::trace!("polled a new client event");
-            // TODO handle io::Error (eg: closed connection)
-            x.expect("parse line").parse()
+            x.map_err(JsonCodingError::custom)?.parse()
         }
         Ok((
             io::BufReader::new(stream).lines().map(parse_line),
-- 
2.43.0


From 2195c5c01f17aae896b3b132498729103de187d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 16/33] fix: print one message per line in json mode

---
 core/src/clients.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index fff920c..97f1ebc 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -80,7 +80,10 @@ impl StdioClient {
             ex.spawn(request_loop).detach();
             while let Some(event) = events.next().await {
                 match event {
-                    Ok(msg) => stdout.write_all(msg.to_string().as_bytes()).await?,
+                    Ok(msg) => {
+                        stdout.write_all(format!("{}\n", msg).as_bytes()).await?;
+                        stdout.flush().await?;
+                    }
                     Err(e) => log::error!("invalid event: {}", e),
                 }
             }
-- 
2.43.0


From e24450d8a30d49943d9ed379ee9e72ffc2791180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 17/33] fix: compare a whole focus equal to itself

---
 core/src/editor/view.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/editor/view.rs b/core/src/editor/view.rs
index 17dd5bc..1c0f21a 100644
--- a/core/src/editor/view.rs
+++ b/core/src/editor/view.rs
@@ -46,6 +46,7 @@ impl PartialOrd for Focus {
 impl Ord for Focus {
     fn cmp(&self, other: &Focus) -> Ordering {
         match (self, other) {
+            (Focus::Whole, Focus::Whole) => Ordering::Equal,
             (Focus::Whole, _) => Ordering::Greater,
             (_, Focus::Whole) => Ordering::Less,
             (Focus::Range(a), Focus::Range(b)) => {
-- 
2.43.0


From e777dbfa59e54c856b9c0b418aaf73f792a60bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 18/33] fix: do not abort on a NUL in a text nor trust a
 negative length

---
 remote-ffi/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/remote-ffi/src/lib.rs b/remote-ffi/src/lib.rs
index 5d419de..595d821 100644
--- a/remote-ffi/src/lib.rs
+++ b/remote-ffi/src/lib.rs
@@ -20,7 +20,7 @@ macro_rules! raw {
 #[macro_export]
 macro_rules! cstring {
     ($e:expr) => {
-        std::ffi::CString::new($e)
+        std::ffi::CString::new($e.to_string().replace('\0', "\u{fffd}"))
             .expect("failed to encode string")
             .into_raw()
     };
@@ -109,10 +109,10 @@ pub unsafe extern "C" fn ced_last_error_message(buffer: *mut c_char, length: c_i
     };
 
     let message = last_error.to_string();
-    let buffer = slice::from_raw_parts_mut(buffer as *mut u8, length as usize);
-    if message.len() >= buffer.len() {
+    if length < 0 || message.len() >= length as usize {
         return -2;
     }
+    let buffer = slice::from_raw_parts_mut(buffer as *mut u8, length as usize);
     ptr::copy_nonoverlapping(message.as_ptr(), buffer.as_mut_ptr(), message.len());
     buffer[message.len()] = 0;
 
-- 
2.43.0


From 602d453845904110671993ca2b64f49e7b4d76d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 19/33] fix: skip the events which have no C counterpart
 instead of aborting

---
 remote-ffi/src/connection.rs |  5 ++++-
 remote-ffi/src/event.rs      | 15 ++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/remote-ffi/src/connection.rs b/remote-ffi/src/connection.rs
index a2a7afb..326abb2 100644
--- a/remote-ffi/src/connection.rs
+++ b/remote-ffi/src/connection.rs
@@ -62,7 +62,10 @@ pub unsafe extern "C" fn ced_connection_next_event<'a>(p: *mut CedConnection) ->
     // }
     if let Ok(ev) = handle.events.recv_timeout(Duration::from_secs(5)) {
         println!("<-- {:?}", ev);
-        Box::into_raw(Box::new(CedEvent::from(ev)))
+        match CedEvent::from_event(ev) {
+            Some(event) => Box::into_raw(Box::new(event)),
+            None => ptr::null_mut(),
+        }
     } else {
         println!("<-- None");
         ptr::null_mut()
diff --git a/remote-ffi/src/event.rs b/remote-ffi/src/event.rs
index f45b703..54ded4d 100644
--- a/remote-ffi/src/event.rs
+++ b/remote-ffi/src/event.rs
@@ -34,13 +34,14 @@ pub enum CedEvent {
     },
 }
 
-impl From<ConnectionEvent> for CedEvent {
-    fn from(event: ConnectionEvent) -> CedEvent {
-        match event {
+impl CedEvent {
+    /// Some events have no C counterpart.
+    pub fn from_event(event: ConnectionEvent) -> Option<CedEvent> {
+        Some(match event {
             ConnectionEvent::Echo(text) => CedEvent::Echo {
                 message: raw!(CedTextIterator::from(&text)),
             },
-            ConnectionEvent::Hint(_hint) => todo!(),
+            ConnectionEvent::Hint(_hint) => return None,
             ConnectionEvent::Info(client, session) => CedEvent::Info {
                 client: cstring!(client),
                 session: cstring!(session),
@@ -58,9 +59,9 @@ impl From<ConnectionEvent> for CedEvent {
             ConnectionEvent::View(view) => CedEvent::View {
                 items: raw!(ViewIterator::from(&view)),
             },
-            ConnectionEvent::ConnErr(_msg) => todo!(),
-            ConnectionEvent::Noop => todo!(),
-        }
+            ConnectionEvent::ConnErr(_msg) => return None,
+            ConnectionEvent::Noop => return None,
+        })
     }
 }
 
-- 
2.43.0


From 78abb5e1f7d91c2885c26d9dba9232c3ca1a72bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 20/33] fix: draw on terminals smaller than the content

---
 core/src/tui.rs | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 6d6bedb..a818402 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -193,22 +193,23 @@ impl Term {
         'outer: for item in &state.view {
             let buffer = &item.buffer;
             let coords = format!("{}:{}", item.start, item.end);
-            let padding = "-".repeat(width as usize - 5 - buffer.len() - coords.len());
+            let padding =
+                "-".repeat((width as usize).saturating_sub(5 + buffer.len() + coords.len()));
             content.push(format!("-[{}][{}]{}", buffer, coords, padding));
             i += 1;
 
             for lens in &item.lenses {
                 for line in &lens.lines {
-                    if i == (height - 1) {
+                    if i >= height.saturating_sub(1) {
                         break 'outer;
                     }
                     let rendered = line.render(format_text);
                     let line_view = if line.text_len() > width as usize {
-                        &rendered[..width as usize]
+                        rendered.chars().take(width as usize).collect()
                     } else {
-                        &rendered
+                        rendered
                     };
-                    content.push(line_view.to_string());
+                    content.push(line_view);
                     i += 1;
                 }
             }
@@ -224,9 +225,12 @@ impl Term {
         let mut stdout = io::stdout();
         let (width_w, height_w) = self.last_size;
 
-        let width_h = hint.text[0].plain().chars().count();
-        let x = width_w - width_h as u16;
-        let mut y = height_w - hint.text.len() as u16;
+        let width_h = hint
+            .text
+            .first()
+            .map_or(0, |line| line.plain().chars().count());
+        let x = width_w.saturating_sub(width_h as u16);
+        let mut y = height_w.saturating_sub(hint.text.len() as u16);
         for line in &hint.text {
             // TODO clamp to screen size (or less?)
             let text = line.render(format_text);
@@ -249,7 +253,7 @@ impl Term {
         let mut stdout = io::stdout();
         let (width, height) = self.last_size;
         let title = format!("{}:{}", menu.title, menu.search);
-        let padding = " ".repeat(width as usize - title.len());
+        let padding = " ".repeat((width as usize).saturating_sub(title.len()));
 
         queue!(
             stdout,
@@ -258,7 +262,7 @@ impl Term {
             PrintStyledContent(style(title + &padding).reverse())
         )?;
         {
-            let display_size = (height - 1) as usize;
+            let display_size = height.saturating_sub(1) as usize;
             for i in 0..menu.entries.len() {
                 if i == display_size {
                     break;
@@ -268,10 +272,10 @@ impl Term {
                     _ => tf.text.to_owned(),
                 });
 
-                let item_view = if item.len() > width as usize {
-                    &item[..width as usize]
+                let item_view: String = if item.len() > width as usize {
+                    item.chars().take(width as usize).collect()
                 } else {
-                    &item
+                    item.to_owned()
                 };
                 let item_print = if i == menu.selected {
                     PrintStyledContent(style(item_view).reverse())
@@ -305,8 +309,9 @@ impl Term {
         let text = if echo.text_len() >= width as usize {
             echo.render(format_text)
         } else if echo.text_len() + status.len() >= width as usize {
-            let skip = echo.text_len() - width as usize + 1;
-            format!("{} {}", echo.render(format_text), &status[skip..])
+            let skip = echo.text_len() + status.len() + 1 - width as usize;
+            let tail: String = status.chars().skip(skip).collect();
+            format!("{} {}", echo.render(format_text), tail)
         } else {
             let padding = width as usize - echo.text_len() - status.len();
             format!(
-- 
2.43.0


From cf206b870cce5783a9b9023cb905bcf2f1462961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 21/33] fix: raise a script error for an unknown client instead
 of stopping the editor

---
 core/src/editor/core.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 464c392..0b72c61 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -117,6 +117,7 @@ macro_rules! lock {
 #[derive(Debug)]
 pub enum Error {
     BufferNotFound { name: String },
+    ClientNotFound { client_id: usize },
     FileNotReadable { name: String, reason: String },
     ViewNotFound { view_id: String },
 }
@@ -126,6 +127,7 @@ impl std::fmt::Display for Error {
         use Error::*;
         match self {
             BufferNotFound { name } => write!(f, "buffer not found: {}", name),
+            ClientNotFound { client_id } => write!(f, "client not found: {}", client_id),
             FileNotReadable { name, reason } => write!(f, "cannot read {}: {}", name, reason),
             ViewNotFound { view_id } => write!(f, "view not found: {}", view_id),
         }
@@ -187,6 +189,14 @@ impl Core {
         lock!(self).buffers.keys().map(String::to_owned).collect()
     }
 
+    fn check_client(&self, client_id: usize) -> Result<(), Error> {
+        if lock!(self).clients.contains_key(&client_id) {
+            Ok(())
+        } else {
+            Err(Error::ClientNotFound { client_id })
+        }
+    }
+
     fn view_exists(&self, view_id: &str) -> bool {
         lock!(self).views.contains_key(view_id)
     }
@@ -691,6 +701,7 @@ impl rlua::UserData for Core {
         });
 
         methods.add_method("get_context", |lua, this, client: usize| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             let context = lock!(this).clients[&client].clone();
             let view_key = context.view.borrow().key();
             let sels = &context.selections[&view_key];
@@ -726,6 +737,7 @@ impl rlua::UserData for Core {
         methods.add_method_mut(
             "scratch",
             |_, this, (client, name, content): (usize, String, String)| {
+                this.check_client(client).map_err(rlua::Error::external)?;
                 this.open_scratch(&name, content);
                 this.edit(client, &name, true)
                     .map_err(rlua::Error::external)?;
@@ -738,6 +750,7 @@ impl rlua::UserData for Core {
         methods.add_method_mut(
             "edit",
             |_, this, (client, name, scratch): (usize, String, bool)| {
+                this.check_client(client).map_err(rlua::Error::external)?;
                 this.edit(client, &name, scratch)
                     .map_err(rlua::Error::external)
             },
@@ -748,38 +761,47 @@ impl rlua::UserData for Core {
         });
 
         methods.add_method_mut("move_left", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::Left, extend);
             Ok(())
         });
         methods.add_method_mut("move_right", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::Right, extend);
             Ok(())
         });
         methods.add_method_mut("move_up", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::Up, extend);
             Ok(())
         });
         methods.add_method_mut("move_down", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::Down, extend);
             Ok(())
         });
         methods.add_method_mut("move_to_line_begin", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::LineBegin, extend);
             Ok(())
         });
         methods.add_method_mut("move_to_line_end", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::LineEnd, extend);
             Ok(())
         });
         methods.add_method_mut("move_to_begin", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::Begin, extend);
             Ok(())
         });
         methods.add_method_mut("move_to_end", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::End, extend);
             Ok(())
         });
         methods.add_method_mut("delete_selection", |_, this, client| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             let deleted = this.delete_selection(client);
             Ok(deleted)
         });
-- 
2.43.0


From 59e405f12484f34d32d59819a16304ebcdd9a99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 22/33] fix: do not update clients still viewing a buffer being
 deleted

---
 core/src/editor/core.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 0b72c61..e6eb5a3 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -380,6 +380,7 @@ impl Core {
         for (_id, context) in lock!(self).clients.iter_mut() {
             context.selections.remove(view_id);
         }
+        let mut deleted_buffers = Vec::new();
         for buffer in view.borrow().buffers() {
             let mut has_ref = false;
             for view in lock!(self).views.values() {
@@ -390,7 +391,7 @@ impl Core {
             }
             if !has_ref {
                 lock!(self).buffers.remove(&buffer.to_owned());
-                self.debug(&format!("delete buffer: {}", buffer));
+                deleted_buffers.push(buffer.to_owned());
             }
         }
         if lock!(self).views.is_empty() {
@@ -408,6 +409,10 @@ impl Core {
             }
         }
         self.notify_view_update(to_notify);
+        // clients may be notified only once none of them views a deleted buffer
+        for buffer in deleted_buffers {
+            self.debug(&format!("delete buffer: {}", buffer));
+        }
         Ok(())
     }
 
-- 
2.43.0


From 5042888b5624576d68b5098a5a7658589ebac827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 23/33] fix: drop the selections of the buffers removed from a
 view

---
 core/src/editor/core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index e6eb5a3..42cebfe 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -427,7 +427,8 @@ impl Core {
         if old_key != new_key {
             if !new_view.is_empty() {
                 for (_id, context) in lock!(self).clients.iter_mut() {
-                    if let Some(old_sels) = context.selections.remove(&old_key) {
+                    if let Some(mut old_sels) = context.selections.remove(&old_key) {
+                        old_sels.retain(|buffer, _| new_view.contains_buffer(buffer));
                         context.selections.insert(new_key.clone(), old_sels);
                     }
                 }
-- 
2.43.0


From dd15bb1d9b2ea68bc871b85f7eb9011d20d8a63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 24/33] fix: do not remove the socket of another server when it
 cannot be bound

---
 core/src/server.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index 5eb90f5..ff976de 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -174,11 +174,10 @@ impl Server {
 
     async fn serve(
         ex: Arc<LocalExecutor<'_>>,
-        session: Session,
+        listener: ServerListener,
         sender: Sender<Event>,
     ) -> io::Result<()> {
         let mut next_client_id = FIRST_CLIENT_ID;
-        let listener = ServerListener::bind(&session).await?;
         let mut incoming = listener.incoming();
         // notify readiness to a potential awaiting client
         println!();
@@ -212,8 +211,10 @@ impl Server {
         let ex = Arc::new(LocalExecutor::new());
         log::trace!("spawning server task");
         future::block_on(ex.run(async {
+            // the session device belongs to another server when it cannot be bound
+            let listener = ServerListener::bind(&self.session).await?;
             let (sender, receiver) = unbounded();
-            ex.spawn(Self::serve(ex.clone(), self.session.clone(), sender))
+            ex.spawn(Self::serve(ex.clone(), listener, sender))
                 .detach();
             Self::handle_events(ex.clone(), self.session.to_string(), receiver).await;
 
-- 
2.43.0


From d8f9355080299946d53347a7579c7fd0db1521bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 25/33] fix: leave the standalone mode when its client quits

---
 core/src/clients.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index 97f1ebc..22c3a09 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -35,10 +35,16 @@ pub fn start_standalone(filenames: &[&str]) {
     let stdin = std::io::stdin();
     for maybe_line in stdin.lock().lines() {
         match maybe_line {
-            Ok(line) => match editor.handle(CLIENT_ID, &line) {
-                Ok(response) => println!("{}", &response),
-                Err(e) => eprintln!("{}: {:?}", e, line),
-            },
+            Ok(line) => {
+                match editor.handle(CLIENT_ID, &line) {
+                    Ok(response) => println!("{}", &response),
+                    Err(e) => eprintln!("{}: {:?}", e, line),
+                }
+                if !editor.removed_clients().is_empty() {
+                    // the only client has quit
+                    break;
+                }
+            }
             Err(e) => eprintln!("failed to read line: {}", e),
         }
     }
-- 
2.43.0


From 0b685f379e2ced1d80f8badf422e31d8658457a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 26/33] fix: difference of a reloaded file is exact and does
 not panic

---
 core/src/editor/diff.rs | 74 +++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 39 deletions(-)

diff --git a/core/src/editor/diff.rs b/core/src/editor/diff.rs
index bf70309..c7e0a4e 100644
--- a/core/src/editor/diff.rs
+++ b/core/src/editor/diff.rs
@@ -7,30 +7,33 @@ pub enum Diff {
     Right(usize),
 }
 
-fn precompute(b1: &[u8], b2: &[u8]) -> (usize, Option<usize>) {
-    let l1 = b1.len();
-    let l2 = b2.len();
-
-    let mut start = 0;
-    while start < l1 && start < l2 && b1[start] == b2[start] {
-        start += 1;
-    }
-
-    let mut end = 0;
-    while start < l1 - end && start < l2 - end && b1[l1 - 1 - end] == b2[l2 - 1 - end] {
-        end += 1;
-    }
-
-    if start == end || end == 0 {
-        (start, None)
-    } else {
-        (start, Some(end))
-    }
+/// Bigger differences are not refined
+const MAX_LCS_CELLS: usize = 1 << 22;
+
+/// Lengths in bytes of the common prefix and suffix, both made of whole characters
+fn precompute(left: &str, right: &str) -> (usize, usize) {
+    let start: usize = left
+        .chars()
+        .zip(right.chars())
+        .take_while(|(l, r)| l == r)
+        .map(|(c, _)| c.len_utf8())
+        .sum();
+    let end = left[start..]
+        .chars()
+        .rev()
+        .zip(right[start..].chars().rev())
+        .take_while(|(l, r)| l == r)
+        .map(|(c, _)| c.len_utf8())
+        .sum();
+    (start, end)
 }
 
-fn find_lcs(left: &[u8], right: &[u8]) -> Vec<u8> {
+fn find_lcs<T: Copy + PartialEq>(left: &[T], right: &[T]) -> Vec<T> {
     let el = left.len();
     let er = right.len();
+    if el == 0 || er == 0 || el.saturating_mul(er) > MAX_LCS_CELLS {
+        return Vec::new();
+    }
 
     let mut mt = vec![0; el * er];
     for i in 0..el {
@@ -79,23 +82,16 @@ fn find_lcs(left: &[u8], right: &[u8]) -> Vec<u8> {
 
 #[allow(clippy::many_single_char_names)]
 pub fn diff(left: &str, right: &str) -> Vec<Diff> {
-    let bleft = left.as_bytes();
-    let bright = right.as_bytes();
     let mut diffs = Vec::new();
 
-    let (start, maybe_end) = precompute(bleft, bright);
+    let (start, end) = precompute(left, right);
     if start > 0 {
         diffs.push(Diff::Both(start));
     }
-    let end = match maybe_end {
-        Some(len) => len,
-        None if start > 0 => return diffs,
-        None => 0,
-    };
-
-    let l = &bleft[start..bleft.len() - end];
-    let r = &bright[start..bright.len() - end];
-    let lcs = find_lcs(l, r);
+
+    let l: Vec<char> = left[start..left.len() - end].chars().collect();
+    let r: Vec<char> = right[start..right.len() - end].chars().collect();
+    let lcs = find_lcs(&l, &r);
     let mut i = 0;
     let mut j = 0;
     let mut len;
@@ -104,7 +100,7 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
     while let Some(&c) = lcs_it.next() {
         len = 0;
         while i < l.len() && l[i] != c {
-            len += 1;
+            len += l[i].len_utf8();
             i += 1;
         }
         if len > 0 {
@@ -113,7 +109,7 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
 
         len = 0;
         while j < r.len() && r[j] != c {
-            len += 1;
+            len += r[j].len_utf8();
             j += 1;
         }
         if len > 0 {
@@ -123,7 +119,7 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
         len = 0;
         let mut sub_c = c;
         while l[i] == sub_c && r[j] == sub_c {
-            len += 1;
+            len += sub_c.len_utf8();
             i += 1;
             j += 1;
             match lcs_it.next() {
@@ -136,11 +132,11 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
         }
     }
 
-    if i < l.len() - 1 {
-        diffs.push(Diff::Left(l.len() - i));
+    if i < l.len() {
+        diffs.push(Diff::Left(l[i..].iter().map(|c| c.len_utf8()).sum()));
     }
-    if j < r.len() - 1 {
-        diffs.push(Diff::Right(r.len() - j));
+    if j < r.len() {
+        diffs.push(Diff::Right(r[j..].iter().map(|c| c.len_utf8()).sum()));
     }
 
     if end > 0 {
-- 
2.43.0


From b60314a1127a8bd500250c5313cfbcff818c4661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 27/33] fix: deleting whole pieces shifts the pieces that
 follow

---
 core/src/editor/piece_table/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 18d6b52..e4921a0 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -577,9 +577,9 @@ impl PieceTable {
             }
             if let Some(ln) = last_node {
                 self.shift_offset_after(&ln, -(range.len() as i64));
-            } else {
-                start_node.apply(|n| n.offset -= range.len());
-                self.shift_offset_after(&start_node, -(range.len() as i64));
+            } else if let Some(next) = self.pieces.get_node(&Piece::offset(range.end())) {
+                self.shift_offset_after(&next, -(range.len() as i64));
+                next.apply(|n| n.offset -= range.len());
             }
             self.newlines = self
                 .newlines
-- 
2.43.0


From e6820d72299e6e4bb24144dffbe04f0a5cb42941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:01 +0000
Subject: [PATCH 28/33] fix: count columns in characters everywhere when moving
 and locating

Columns were sometimes counted in bytes (first line, newlines, line ends),
which made moves over non-ASCII text panic, as did going to the end of an
empty line and positions on an unterminated last line.
---
 core/src/editor/piece_table/mod.rs       | 37 ++++++++++--------------
 core/src/editor/piece_table/navigator.rs | 28 +++++++-----------
 2 files changed, 27 insertions(+), 38 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index e4921a0..8d8bf66 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -358,29 +358,18 @@ impl PieceTable {
             return None;
         }
 
-        // points to a newline
-        if let Some(idx) = self.newlines.iter().position(|&x| x == offset) {
-            let lineno = idx + 1;
-            return Some(Coords {
-                l: lineno,
-                c: self.line_length(lineno) + 1,
-            });
-        }
-
         let preceding_lines = self.newlines.range(..offset).collect::<Vec<_>>();
         let lineno = preceding_lines.len() + 1;
-        Some(match preceding_lines.last() {
-            Some(&nli) => {
-                let line = self.line_bytes(lineno).unwrap();
-                let indices: BTreeSet<_> = line.grapheme_indices().map(|(i, _, _)| i).collect();
-                let col = indices.range(..offset - nli).count();
-                Coords { l: lineno, c: col }
-            }
-            None => Coords {
-                l: lineno,
-                c: offset + 1,
-            },
-        })
+        let line_offset = preceding_lines.last().map_or(0, |&nl| nl + 1);
+        let line = self.line_bytes(lineno).unwrap();
+        let col = if self.newlines.contains(&offset) {
+            line.graphemes().count() + 1
+        } else {
+            line.grapheme_indices()
+                .take_while(|(i, _, _)| *i <= offset - line_offset)
+                .count()
+        };
+        Some(Coords { l: lineno, c: col })
     }
 
     pub fn coord_to_offset(&self, coords: Coords) -> Option<usize> {
@@ -457,6 +446,12 @@ impl PieceTable {
         }
     }
 
+    /// Number of columns of a line, its newline aside
+    pub fn line_columns(&self, index: usize) -> usize {
+        self.line_bytes(index)
+            .map_or(0, |line| line.graphemes().count())
+    }
+
     pub fn longest_line(&self) -> (usize, usize) {
         let mut longest = (0, 0);
         for i in 1..=(self.newlines.len() + 1) {
diff --git a/core/src/editor/piece_table/navigator.rs b/core/src/editor/piece_table/navigator.rs
index 329cd27..a2bb400 100644
--- a/core/src/editor/piece_table/navigator.rs
+++ b/core/src/editor/piece_table/navigator.rs
@@ -1,6 +1,4 @@
-use std::cmp::min;
-
-use bstr::ByteSlice;
+use std::cmp::{max, min};
 
 use crate::editor::piece_table::{Coords, PieceTable, Position};
 
@@ -34,13 +32,12 @@ impl Navigator<'_> {
     }
 
     pub fn pos(&self) -> Position {
-        let col_count = self
-            .table
-            .line_bytes(self.cursor.l)
-            .unwrap_or_else(|| panic!("get bytes for line {}", self.cursor.l))
-            .graphemes()
-            .count()
-            + 1;
+        // the last line may not be terminated by a newline
+        let has_newline = self.cursor.l <= self.table.newlines.len();
+        let col_count = max(
+            self.table.line_columns(self.cursor.l) + has_newline as usize,
+            1,
+        );
         let cursor = Coords {
             c: min(col_count, self.target_col),
             ..self.cursor
@@ -65,11 +62,8 @@ impl Navigator<'_> {
             };
             self.target_col = 1;
         } else {
-            let offset = self.table.coord_to_offset(self.cursor).unwrap();
-            if let Some(coord) = self.table.offset_to_coord(offset + 1) {
-                self.cursor = coord;
-                self.target_col = coord.c;
-            }
+            self.cursor.c += 1;
+            self.target_col = self.cursor.c;
         }
         self
     }
@@ -79,7 +73,7 @@ impl Navigator<'_> {
             if self.cursor.l != 1 && self.cursor.c == 1 {
                 let l = self.cursor.l - 1;
                 self.cursor.l = l;
-                self.cursor.c = self.table.line_length(l) + 1;
+                self.cursor.c = self.table.line_columns(l) + 1;
             } else {
                 self.cursor.c -= 1;
             }
@@ -109,7 +103,7 @@ impl Navigator<'_> {
     }
 
     pub fn line_end(&mut self) -> &mut Self {
-        self.cursor.c = self.table.line_length(self.cursor.l);
+        self.cursor.c = max(self.table.line_columns(self.cursor.l), 1);
         self.target_col = self.cursor.c;
         self
     }
-- 
2.43.0


From dd282686a69c5458152b0ac181fe8f2d31bbff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:01 +0000
Subject: [PATCH 29/33] fix: decorate selections by byte ranges

Columns were used as byte ranges, which panicked inside multi-byte
characters.
---
 core/src/editor/view.rs | 75 +++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 40 deletions(-)

diff --git a/core/src/editor/view.rs b/core/src/editor/view.rs
index 1c0f21a..702704f 100644
--- a/core/src/editor/view.rs
+++ b/core/src/editor/view.rs
@@ -192,40 +192,38 @@ impl View {
                     let mut selected: HashMap<usize, Vec<_>> = HashMap::new();
                     if let Some(ss) = sels {
                         for s in ss {
-                            let start = buffer.content.offset_to_coord(s.begin()).unwrap();
-                            let end = {
-                                if s.end() == buffer.content.max_offset() {
-                                    let mut end = buffer.content.offset_to_coord(s.end()).unwrap();
-                                    end.c += 1;
-                                    end
-                                } else {
-                                    buffer
-                                        .content
-                                        .navigate(buffer.content.offset_to_coord(s.end()))
-                                        .unwrap()
-                                        .next()
-                                        .pos()
-                                        .coords
-                                }
+                            // the decorated ranges are in bytes
+                            let byte_pos = |offset: usize| {
+                                let l = buffer.content.offset_to_coord(offset).unwrap().l;
+                                let line_offset =
+                                    buffer.content.coord_to_offset((l, 1).into()).unwrap();
+                                (l, offset - line_offset)
+                            };
+                            let start = byte_pos(s.begin());
+                            let end = if s.end() == buffer.content.max_offset() {
+                                let (l, b) = byte_pos(s.end());
+                                (l, b + 1)
+                            } else {
+                                byte_pos(buffer.selection_range(s).end)
                             };
-                            if start.l == end.l {
-                                let range = (Some(start.c - 1), Some(end.c - 1));
+                            if start.0 == end.0 {
+                                let range = (Some(start.1), Some(end.1));
                                 selected
-                                    .entry(start.l - 1)
+                                    .entry(start.0 - 1)
                                     .and_modify(|e| e.push(range))
                                     .or_insert_with(|| vec![range]);
-                            } else if start.l == end.l - 1 && end.c == 1 {
-                                let range = (Some(start.c - 1), None);
+                            } else if start.0 == end.0 - 1 && end.1 == 0 {
+                                let range = (Some(start.1), None);
                                 selected
-                                    .entry(start.l - 1)
+                                    .entry(start.0 - 1)
                                     .and_modify(|e| e.push(range))
                                     .or_insert_with(|| vec![range]);
                             } else {
-                                for i in start.l..=end.l {
-                                    let range = if i == start.l {
-                                        (Some(start.c - 1), None)
-                                    } else if i == end.l {
-                                        (None, Some(end.c - 1))
+                                for i in start.0..=end.0 {
+                                    let range = if i == start.0 {
+                                        (Some(start.1), None)
+                                    } else if i == end.0 {
+                                        (None, Some(end.1))
                                     } else {
                                         (None, None)
                                     };
@@ -244,21 +242,18 @@ impl View {
                         .map(|(i, line)| {
                             let l = line.to_owned() + " ";
                             let mut deco = Decorator::with_text(&l);
+                            let floor = |pos: usize| {
+                                (0..=pos.min(l.len()))
+                                    .rev()
+                                    .find(|&p| l.is_char_boundary(p))
+                                    .unwrap_or(0)
+                            };
                             if let Some(ranges) = selected.get(&i) {
-                                for range in ranges {
-                                    match *range {
-                                        (Some(start), Some(end)) => {
-                                            deco.set(Face::Selection, start..end);
-                                        }
-                                        (Some(start), None) => {
-                                            deco.set(Face::Selection, start..l.len());
-                                        }
-                                        (None, Some(end)) => {
-                                            deco.set(Face::Selection, 0..end);
-                                        }
-                                        (None, None) => {
-                                            deco.set(Face::Selection, 0..l.len());
-                                        }
+                                for (start, end) in ranges {
+                                    let start = start.map_or(0, floor);
+                                    let end = end.map_or(l.len(), floor);
+                                    if start < end {
+                                        deco.set(Face::Selection, start..end);
                                     }
                                 }
                             }
-- 
2.43.0


From b3952a3d138dffccfd016a989de24b718b71948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:52 +0000
Subject: [PATCH 30/33] fix: moving right at the end or left at the beginning
 of a buffer stays there

The column wanted by earlier vertical motions was still used there, so that the
cursor could jump to another column of the line.
---
 core/src/editor/piece_table/navigator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/editor/piece_table/navigator.rs b/core/src/editor/piece_table/navigator.rs
index a2bb400..699e5f9 100644
--- a/core/src/editor/piece_table/navigator.rs
+++ b/core/src/editor/piece_table/navigator.rs
@@ -54,7 +54,7 @@ impl Navigator<'_> {
 
     pub fn next(&mut self) -> &mut Self {
         if self.cursor == self.table.max_coord() {
-            return self;
+            self.target_col = self.cursor.c;
         } else if self.table.char_at(self.cursor).map_or(false, |c| c == "\n") {
             self.cursor = Coords {
                 l: self.cursor.l + 1,
@@ -77,8 +77,8 @@ impl Navigator<'_> {
             } else {
                 self.cursor.c -= 1;
             }
-            self.target_col = self.cursor.c;
         }
+        self.target_col = self.cursor.c;
         self
     }
 
-- 
2.43.0


From 4720210bdeb074f75d26e56795d681faa9251961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:01 +0000
Subject: [PATCH 31/33] fix: do not stop when the log of the terminal client
 cannot be written

---
 core/src/tui.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index a818402..3aa40eb 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -17,14 +17,15 @@ use remote::{Connection, ConnectionEvent, Menu, Session};
 fn logline(msg: impl std::fmt::Display) {
     use std::fs::OpenOptions;
 
-    let mut file = OpenOptions::new()
+    // not every folder can be written to
+    if let Ok(mut file) = OpenOptions::new()
         .create(true)
         .append(true)
         .open("log.txt")
-        .expect("open file");
-
-    if let Err(e) = writeln!(file, "{}", msg) {
-        eprintln!("Couldn't write to file: {}", e);
+    {
+        if let Err(e) = writeln!(file, "{}", msg) {
+            eprintln!("Couldn't write to file: {}", e);
+        }
     }
 }
 
-- 
2.43.0


From 6e08259186e21ac0c0b3c5a399a52f63beaf0c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:03 +0000
Subject: [PATCH 32/33] fix: ignore input which arrives when the connection is
 lost

---
 core/src/tui.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 3aa40eb..3c4b947 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -116,18 +116,18 @@ impl Term {
                 let mut reader = EventStream::new();
                 while let Some(event) = reader.next().await {
                     logline(format!("new input: {:?}", event));
-                    match event {
-                        Ok(ev @ CEvent::Key(_)) => {
-                            tx.send(Event::Input(ev)).await.expect("send event")
+                    let sent = match event {
+                        Ok(ev @ CEvent::Key(_)) => tx.send(Event::Input(ev)).await,
+                        Ok(CEvent::Mouse(_)) => Ok(()),
+                        Ok(CEvent::Resize(w, h)) => tx.send(Event::Resize((w, h))).await,
+                        Err(e) => {
+                            tx.send(Event::Error(format!("\"event read: {}\"", e)))
+                                .await
                         }
-                        Ok(CEvent::Mouse(_)) => {}
-                        Ok(CEvent::Resize(w, h)) => {
-                            tx.send(Event::Resize((w, h))).await.expect("send event")
-                        }
-                        Err(e) => tx
-                            .send(Event::Error(format!("\"event read: {}\"", e)))
-                            .await
-                            .expect("send event"),
+                    };
+                    if sent.is_err() {
+                        // the connection is lost
+                        break;
                     }
                 }
             })
-- 
2.43.0


From 9605ab2de9dffa2e791c4123cbfb68024a578bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:15 +0000
Subject: [PATCH 33/33] fix: send a new client the view it starts with

---
 core/src/editor/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 42cebfe..5d59120 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -328,6 +328,7 @@ impl Core {
         }
         self.debug(&format!("new client: {}", id));
         self.notifier.info_update(id, info);
+        self.notify_view_update(vec![id]);
     }
 
     pub fn remove_client(&mut self, id: usize) {
-- 
2.43.0

