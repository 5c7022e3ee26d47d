From a9be7893277bbbe02daf23edc08b2b1d55a9790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:54 +0000
Subject: [PATCH 01/35] fix: frame language server messages by bytes and take
 every complete one

One read could hold several messages, of which only the first was answered
until more input came, and a read that ended inside a character ended the
session.
---
 crates/brack-language-server/src/server.rs | 66 +++++++++++-----------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 59daa7b..749d96c 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -1,10 +1,8 @@
-use std::str::from_utf8;
-
 use anyhow::Result;
 use brack_project_manager::project::Project;
 use lsp_types::{ClientCapabilities, Diagnostic};
 use serde::Serialize;
-use serde_json::{from_str, json, Value};
+use serde_json::{from_slice, json, Value};
 use tokio::io::{stdin, stdout, AsyncReadExt, AsyncWriteExt};
 
 #[derive(Default)]
@@ -13,6 +11,35 @@ pub struct Server {
     pub(crate) project: Option<Project>,
 }
 
+/// Takes the content of the first complete message off the front of `buffer`.
+fn take_message(buffer: &mut Vec<u8>) -> Option<Vec<u8>> {
+    loop {
+        let header_length = buffer.windows(4).position(|w| w == b"\r\n\r\n")? + 4;
+
+        let mut content_length = None;
+        let header_string = String::from_utf8_lossy(&buffer[..header_length]);
+        for line in header_string.split("\r\n") {
+            let Some((key, value)) = line.split_once(':') else {
+                continue;
+            };
+            if key.trim().eq_ignore_ascii_case("Content-Length") {
+                content_length = value.trim().parse::<usize>().ok();
+            }
+        }
+
+        let Some(content_length) = content_length else {
+            buffer.drain(0..header_length);
+            continue;
+        };
+        if buffer.len() - header_length < content_length {
+            return None;
+        }
+
+        let message = buffer.drain(0..header_length + content_length);
+        return Some(message.skip(header_length).collect());
+    }
+}
+
 impl Server {
     pub(crate) async fn send_stdout<T: ?Sized + Serialize>(&self, message: &T) -> Result<()> {
         let msg = serde_json::to_string(message)?;
@@ -134,37 +161,10 @@ impl Server {
             }
             buffer.extend_from_slice(&tmp_buffer[..chunk]);
 
-            let buffer_string = from_utf8(&buffer)?;
-            if !buffer_string.contains("\r\n\r\n") {
-                continue;
-            }
-
-            let splitted_buffer = buffer_string.split("\r\n\r\n").collect::<Vec<&str>>();
-            let header_string = splitted_buffer[0];
-
-            let mut content_length = -1;
-            let header_length = header_string.len() + 4;
-            for line in header_string.split("\r\n") {
-                let splitted_line = line.split(": ").collect::<Vec<&str>>();
-                let key = splitted_line[0];
-                let value = splitted_line[1];
-                if key == "Content-Length" {
-                    content_length = value.parse::<i32>()?;
-                }
-            }
-
-            if content_length == -1 {
-                continue;
+            while let Some(message) = take_message(&mut buffer) {
+                let msg: Value = from_slice(&message)?;
+                self.dispatch(msg).await?;
             }
-            let total_length = header_length + content_length as usize;
-
-            if buffer.len() < total_length {
-                continue;
-            }
-
-            let msg: Value = from_str(&buffer_string[header_length..total_length])?;
-            self.dispatch(msg).await?;
-            buffer.drain(0..total_length);
         }
 
         Ok(())
-- 
2.43.0


From aa0e01aaf7d0b8ff7eb66c3cdffcabdba62942fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 02/35] fix: keep the language server session alive when one
 message fails

A malformed message, a document that does not parse or a failed download
ended the whole session; report them to the client and carry on.
---
 crates/brack-language-server/src/server.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 749d96c..52db7b4 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -101,7 +101,6 @@ impl Server {
             .await
     }
 
-    #[allow(dead_code)]
     pub(crate) async fn send_parse_error_response(&self) -> Result<()> {
         self.send_error_response(None, -32700, "received an invalid JSON")
             .await
@@ -162,8 +161,14 @@ impl Server {
             buffer.extend_from_slice(&tmp_buffer[..chunk]);
 
             while let Some(message) = take_message(&mut buffer) {
-                let msg: Value = from_slice(&message)?;
-                self.dispatch(msg).await?;
+                let Ok(msg) = from_slice::<Value>(&message) else {
+                    self.send_parse_error_response().await?;
+                    continue;
+                };
+                if let Err(e) = self.dispatch(msg).await {
+                    self.log_message(&format!("Failed to handle a message: {}", e))
+                        .await?;
+                }
             }
         }
 
-- 
2.43.0


From 203bc07fca737680ac0773ac427eabb0f0c3c5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:01 +0000
Subject: [PATCH 03/35] fix: answer every request exactly once, under the id it
 came with

String ids were taken for notifications, a request with nothing to report
got no answer, and neither did one with invalid parameters.
---
 crates/brack-language-server/src/request.rs  | 40 ++++++++++----------
 crates/brack-language-server/src/response.rs |  2 +-
 crates/brack-language-server/src/result.rs   |  5 ++-
 crates/brack-language-server/src/server.rs   | 23 +++++++++--
 4 files changed, 43 insertions(+), 27 deletions(-)

diff --git a/crates/brack-language-server/src/request.rs b/crates/brack-language-server/src/request.rs
index ed1db70..3642e9a 100644
--- a/crates/brack-language-server/src/request.rs
+++ b/crates/brack-language-server/src/request.rs
@@ -17,7 +17,7 @@ impl Server {
     pub(crate) async fn handle_request(
         &mut self,
         msg: &Value,
-        id: i64,
+        id: &Value,
         method: &str,
     ) -> Result<()> {
         match method {
@@ -25,7 +25,9 @@ impl Server {
                 self.log_message("Brack Language Server is initializing...")
                     .await?;
 
-                let params = InitializeParams::deserialize(msg["params"].clone())?;
+                let Ok(params) = InitializeParams::deserialize(msg["params"].clone()) else {
+                    return self.send_invalid_params_response(id, method).await;
+                };
                 self.client_capabilities = params.capabilities;
 
                 let response = InitializeResult {
@@ -100,20 +102,18 @@ impl Server {
                     }),
                 };
 
-                let result = BLSResult::new(id, response);
+                let result = BLSResult::new(id.clone(), response);
                 self.send_stdout(&result).await
             }
             "textDocument/semanticTokens/full" => {
-                let params = SemanticTokensParams::deserialize(msg["params"].clone())?;
+                let Ok(params) = SemanticTokensParams::deserialize(msg["params"].clone()) else {
+                    return self.send_invalid_params_response(id, method).await;
+                };
                 match self.handle_semantic_tokens_full(params).await {
-                    Ok(result) => match result {
-                        Some(response) => {
-                            let result = BLSResult::new(id, response);
-                            self.send_stdout(&result).await?;
-                            Ok(())
-                        }
-                        None => Ok(()),
-                    },
+                    Ok(response) => {
+                        let result = BLSResult::new(id.clone(), response);
+                        self.send_stdout(&result).await
+                    }
                     Err(_) => {
                         self.send_error_response(Some(id), -32000, "semantic tokens failed")
                             .await
@@ -121,16 +121,14 @@ impl Server {
                 }
             }
             "textDocument/completion" => {
-                let params = CompletionParams::deserialize(msg["params"].clone())?;
+                let Ok(params) = CompletionParams::deserialize(msg["params"].clone()) else {
+                    return self.send_invalid_params_response(id, method).await;
+                };
                 match self.handle_completion(params).await {
-                    Ok(result) => match result {
-                        Some(response) => {
-                            let result = BLSResult::new(id, response);
-                            self.send_stdout(&result).await?;
-                            Ok(())
-                        }
-                        None => Ok(()),
-                    },
+                    Ok(response) => {
+                        let result = BLSResult::new(id.clone(), response);
+                        self.send_stdout(&result).await
+                    }
                     Err(_) => {
                         self.send_error_response(Some(id), -32000, "completion failed")
                             .await
diff --git a/crates/brack-language-server/src/response.rs b/crates/brack-language-server/src/response.rs
index 7167f18..77918d8 100644
--- a/crates/brack-language-server/src/response.rs
+++ b/crates/brack-language-server/src/response.rs
@@ -3,7 +3,7 @@ use anyhow::Result;
 use serde_json::Value;
 
 impl Server {
-    pub(crate) async fn handle_response(&self, _: &Value, _: i64) -> Result<()> {
+    pub(crate) async fn handle_response(&self, _: &Value, _: &Value) -> Result<()> {
         Ok(())
     }
 }
diff --git a/crates/brack-language-server/src/result.rs b/crates/brack-language-server/src/result.rs
index 24bee6d..587549c 100644
--- a/crates/brack-language-server/src/result.rs
+++ b/crates/brack-language-server/src/result.rs
@@ -1,14 +1,15 @@
 use serde::Serialize;
+use serde_json::Value;
 
 #[derive(Serialize)]
 pub(crate) struct BLSResult<R: Serialize> {
     jsonrpc: String,
-    id: i64,
+    id: Value,
     result: R,
 }
 
 impl<R: Serialize> BLSResult<R> {
-    pub fn new(id: i64, result: R) -> Self {
+    pub fn new(id: Value, result: R) -> Self {
         Self {
             jsonrpc: "2.0".to_string(),
             id,
diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 52db7b4..3722c16 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -75,7 +75,7 @@ impl Server {
 
     pub(crate) async fn send_error_response(
         &self,
-        id: Option<i64>,
+        id: Option<&Value>,
         code: i32,
         message: &str,
     ) -> Result<()> {
@@ -96,11 +96,28 @@ impl Server {
             .await
     }
 
-    pub(crate) async fn send_method_not_found_response(&self, id: i64, method: &str) -> Result<()> {
+    pub(crate) async fn send_method_not_found_response(
+        &self,
+        id: &Value,
+        method: &str,
+    ) -> Result<()> {
         self.send_error_response(Some(id), -32601, &format!("{} is not supported", method))
             .await
     }
 
+    pub(crate) async fn send_invalid_params_response(
+        &self,
+        id: &Value,
+        method: &str,
+    ) -> Result<()> {
+        self.send_error_response(
+            Some(id),
+            -32602,
+            &format!("received invalid parameters for {}", method),
+        )
+        .await
+    }
+
     pub(crate) async fn send_parse_error_response(&self) -> Result<()> {
         self.send_error_response(None, -32700, "received an invalid JSON")
             .await
@@ -136,7 +153,7 @@ impl Server {
 
     pub(crate) async fn dispatch(&mut self, msg: Value) -> Result<()> {
         match (
-            msg.get("id").and_then(|i| i.as_i64()),
+            msg.get("id").filter(|i| i.is_number() || i.is_string()),
             msg.get("method").and_then(|m| m.as_str()),
         ) {
             (Some(id), Some(method)) => self.handle_request(&msg, id, method).await,
-- 
2.43.0


From bab25a4b8b143e7d97526a8d2998f39f7bca6cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:53 +0000
Subject: [PATCH 04/35] fix: publish diagnostics under the document's URI

They carried the file path, which no client can match with the document
it asked about.
---
 crates/brack-language-server/src/notification/did_save.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/brack-language-server/src/notification/did_save.rs b/crates/brack-language-server/src/notification/did_save.rs
index dc94db8..aecee22 100644
--- a/crates/brack-language-server/src/notification/did_save.rs
+++ b/crates/brack-language-server/src/notification/did_save.rs
@@ -16,11 +16,12 @@ impl Server {
             .uri
             .to_file_path()
             .map_err(|_| anyhow::anyhow!("Invalid file path"))?;
-        let uri = file_path
+        let uri = param.text_document.uri.as_str();
+        let path = file_path
             .to_str()
             .ok_or_else(|| anyhow::anyhow!("Invalid file path"))?;
 
-        let tokens = match tokenize(uri) {
+        let tokens = match tokenize(path) {
             Ok(tokens) => tokens,
             Err(e) => return self.log_message(&format!("Tokenize failed: {}", e)).await,
         };
-- 
2.43.0


From 6ad7b7c961949536609c63c4c21f71d0fb931216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:58 +0000
Subject: [PATCH 05/35] fix: compare characters with characters when merging
 locations

---
 crates/brack-tokenizer/src/tokens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/brack-tokenizer/src/tokens.rs b/crates/brack-tokenizer/src/tokens.rs
index bb6b745..28e6c11 100644
--- a/crates/brack-tokenizer/src/tokens.rs
+++ b/crates/brack-tokenizer/src/tokens.rs
@@ -58,7 +58,7 @@ pub fn merge_location(location1: &Location, location2: &Location) -> Location {
 
     let end = match location1.end.line.cmp(&location2.end.line) {
         Ordering::Less => location2.end.clone(),
-        Ordering::Equal => match location1.end.line.cmp(&location2.end.character) {
+        Ordering::Equal => match location1.end.character.cmp(&location2.end.character) {
             Ordering::Greater => location1.end.clone(),
             _ => location2.end.clone(),
         },
-- 
2.43.0


From 00fe188ba2415f5892eb4eefcd162fa390c62b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:02 +0000
Subject: [PATCH 06/35] fix: report an unexpected dot once

---
 crates/brack-transformer/src/utils.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/brack-transformer/src/utils.rs b/crates/brack-transformer/src/utils.rs
index 502220d..f3ea54c 100644
--- a/crates/brack-transformer/src/utils.rs
+++ b/crates/brack-transformer/src/utils.rs
@@ -87,10 +87,8 @@ pub fn check_valid_arguments(csts: &[CST]) -> (Vec<CST>, Vec<TransformError>) {
                 new_csts.push(csts[i].clone());
                 break;
             }
-            CST::Dot(_) => {
-                errors.push(TransformError::UnexpectedDot(csts[i].location()));
-                continue;
-            }
+            // Reported by check_unexpected_dot.
+            CST::Dot(_) => continue,
             _ => {
                 expr.add(csts[i].clone());
                 previous_comma = false;
-- 
2.43.0


From 7f7ab353ef355a6b7fcab138a5454dceae279a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:22 +0000
Subject: [PATCH 07/35] fix: treat escaped brackets as text in the tokenizer
 and in semantic tokens

They changed the nesting and what counts as a module or an identifier.
---
 .../src/request/semantic_tokens.rs            | 10 ++++++-
 crates/brack-tokenizer/src/backslash.rs       | 30 +++++++++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/crates/brack-language-server/src/request/semantic_tokens.rs b/crates/brack-language-server/src/request/semantic_tokens.rs
index 40b360e..f24387f 100644
--- a/crates/brack-language-server/src/request/semantic_tokens.rs
+++ b/crates/brack-language-server/src/request/semantic_tokens.rs
@@ -48,9 +48,17 @@ fn separate(tokens: &Vec<Token>) -> Vec<SemanticToken> {
     let mut semantic_tokens = Vec::new();
     let mut prev_line = 0;
     let mut prev_char = 0;
+    let mut escaped = false;
 
     for token in tokens {
         let location = token.get_location();
+        // What a backslash escapes is text, whatever it would be by itself.
+        let token_type = if escaped {
+            100
+        } else {
+            token_kind_to_type(token)
+        };
+        escaped = matches!(token, Token::BackSlash(_)) && !escaped;
         let delta_line = location.start.line as u32 - prev_line;
         let delta_start = if delta_line == 0 {
             location.start.character as u32 - prev_char
@@ -62,7 +70,7 @@ fn separate(tokens: &Vec<Token>) -> Vec<SemanticToken> {
             delta_line,
             delta_start,
             length: (location.end.character - location.start.character) as u32,
-            token_type: token_kind_to_type(token),
+            token_type,
             token_modifiers_bitset: 0,
         });
 
diff --git a/crates/brack-tokenizer/src/backslash.rs b/crates/brack-tokenizer/src/backslash.rs
index 2935e62..6d300bb 100644
--- a/crates/brack-tokenizer/src/backslash.rs
+++ b/crates/brack-tokenizer/src/backslash.rs
@@ -34,6 +34,36 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         },
     }));
 
+    // An escaped bracket neither opens nor closes a command, and an escaped
+    // backslash escapes nothing.
+    let (head, rest) = separate(&tail);
+    let escaped: Option<fn(Location) -> Token> = match &head[..] {
+        "\\" => Some(Token::BackSlash),
+        "<" => Some(Token::AngleBracketOpen),
+        ">" => Some(Token::AngleBracketClose),
+        "{" => Some(Token::CurlyBracketOpen),
+        "}" => Some(Token::CurlyBracketClose),
+        "[" => Some(Token::SquareBracketOpen),
+        "]" => Some(Token::SquareBracketClose),
+        _ => None,
+    };
+    let (column, tail) = match escaped {
+        Some(new_token) => {
+            tokens.push(new_token(Location {
+                start: LocationData {
+                    line,
+                    character: column + 1,
+                },
+                end: LocationData {
+                    line,
+                    character: column + 2,
+                },
+            }));
+            (column + 1, rest)
+        }
+        None => (column, tail),
+    };
+
     let t2 = Tokenizer {
         column: Some(column + 1),
         token_start_column: Some(column + 1),
-- 
2.43.0


From ed19d2d51ed41c7f566ce46851b710b45dd1742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:51 +0000
Subject: [PATCH 08/35] fix: do not panic on separators that end up outside of
 commands

After an unclosed bracket the following lines are still tokenized as
nested, and the separators in them made the transformer panic.
---
 crates/brack-transformer/src/transform.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/brack-transformer/src/transform.rs b/crates/brack-transformer/src/transform.rs
index ca1dabc..45b1a4d 100644
--- a/crates/brack-transformer/src/transform.rs
+++ b/crates/brack-transformer/src/transform.rs
@@ -60,6 +60,10 @@ pub fn transform(cst: &CST) -> (AST, Vec<TransformError>) {
             CST::Module(node) => new_module(node.value.clone(), node.location.clone()),
             CST::Invalid(node) => new_invalid(node.location.clone()),
             CST::Text(node) => new_text(node.value.clone(), node.location.clone()),
+            // Separators outside of commands are plain text.
+            CST::Whitespace(node) => new_text(Some(" ".to_string()), node.location.clone()),
+            CST::Dot(node) => new_text(Some(".".to_string()), node.location.clone()),
+            CST::Comma(node) => new_text(Some(",".to_string()), node.location.clone()),
             node => panic!("Cannot pass non-ast node to transform::aux: {:?}", node),
         }
     }
-- 
2.43.0


From 7587397652d96b6c7f8752115ceffca9abc809ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:32 +0000
Subject: [PATCH 09/35] fix: store downloaded plugins atomically and create the
 plugins directory

An interrupted write left a truncated file that every later build took for
the plugin, and a project without plugins/ could not be built at all.
---
 crates/brack-project-manager/src/lib.rs     |  1 +
 crates/brack-project-manager/src/project.rs |  3 ++-
 crates/brack-project-manager/src/store.rs   | 26 +++++++++++++++++++++
 3 files changed, 29 insertions(+), 1 deletion(-)
 create mode 100644 crates/brack-project-manager/src/store.rs

diff --git a/crates/brack-project-manager/src/lib.rs b/crates/brack-project-manager/src/lib.rs
index 20b99d4..d8d4275 100644
--- a/crates/brack-project-manager/src/lib.rs
+++ b/crates/brack-project-manager/src/lib.rs
@@ -2,3 +2,4 @@ pub mod config;
 pub mod document;
 pub mod plugin;
 pub mod project;
+mod store;
diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index b0ae3b5..dce0a97 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -1,5 +1,6 @@
 use crate::config::Config;
 use crate::plugin::PluginSchema;
+use crate::store::write_atomically;
 use anyhow::Result;
 use brack_plugin::{feature_flag::FeatureFlag, plugin::Plugin, plugins::Plugins};
 use bytes::Bytes;
@@ -109,7 +110,7 @@ impl Project {
             let results = join_all(tasks).await;
             for result in results {
                 let (name, path, bytes, flag) = result??;
-                std::fs::write(&path, &bytes)?;
+                write_atomically(&path, &bytes)?;
                 self.plugins_metadata.insert(name, (path, flag));
             }
         }
diff --git a/crates/brack-project-manager/src/store.rs b/crates/brack-project-manager/src/store.rs
new file mode 100644
index 0000000..17e5a1f
--- /dev/null
+++ b/crates/brack-project-manager/src/store.rs
@@ -0,0 +1,26 @@
+use anyhow::Result;
+use std::{
+    fs::{create_dir_all, remove_file, rename, File},
+    io::Write,
+    path::Path,
+};
+
+/// Writes `bytes` to `path`, which holds either what it held before or all of
+/// `bytes` at any time, even if the process or the system dies on the way.
+pub(crate) fn write_atomically(path: &Path, bytes: &[u8]) -> Result<()> {
+    if let Some(directory) = path.parent() {
+        create_dir_all(directory)?;
+    }
+    let partial = path.with_file_name(format!(".{}.partial", std::process::id()));
+    let result = File::create(&partial)
+        .and_then(|mut file| {
+            file.write_all(bytes)?;
+            file.sync_all()
+        })
+        .and_then(|_| rename(&partial, path));
+    if let Err(e) = result {
+        let _ = remove_file(&partial);
+        return Err(e.into());
+    }
+    Ok(())
+}
-- 
2.43.0


From 7ce186c96c0d389a90a6e0020b9bff2d2db660a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:39 +0000
Subject: [PATCH 10/35] fix: keep a project's plugins under its own root

The language server stored and looked them up under the directory it was
started in, mixing the plugins of different projects.
---
 crates/brack-project-manager/src/project.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index dce0a97..bf732f2 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -47,7 +47,8 @@ impl Project {
             let mut tasks = vec![];
             for (name, plugin) in plugins {
                 let path =
-                    PathBuf::from(&format!("plugins/{}_{}.wasm", name, plugin.hash_sha256()));
+                    self.root
+                        .join(format!("plugins/{}_{}.wasm", name, plugin.hash_sha256()));
                 let document_hook = (match plugin {
                     PluginSchema::GitHub { document_hook, .. } => document_hook,
                 })
-- 
2.43.0


From 4837dd69920504ca5a57d24aa0810a942a8a51b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:43 +0000
Subject: [PATCH 11/35] fix: do not reuse a plugin cached for another backend

The backend selects which file is downloaded, but was not part of the name
it is cached under.
---
 crates/brack-project-manager/src/plugin.rs  | 4 ++--
 crates/brack-project-manager/src/project.rs | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 388dd5e..28f5bff 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -171,9 +171,9 @@ impl<'de> Deserialize<'de> for PluginSchema {
 }
 
 impl PluginSchema {
-    pub fn hash_sha256(&self) -> String {
+    pub fn hash_sha256(&self, backend: &str) -> String {
         let mut hasher = Sha256::new();
-        hasher.update(format!("{:?}", self));
+        hasher.update(format!("{:?}{:?}", self, backend));
         format!("{:x}", hasher.finalize())
     }
 }
diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index bf732f2..3f1625b 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -46,9 +46,11 @@ impl Project {
         if let Some(plugins) = self.config.plugins.clone() {
             let mut tasks = vec![];
             for (name, plugin) in plugins {
-                let path =
-                    self.root
-                        .join(format!("plugins/{}_{}.wasm", name, plugin.hash_sha256()));
+                let path = self.root.join(format!(
+                    "plugins/{}_{}.wasm",
+                    name,
+                    plugin.hash_sha256(&self.config.document.backend)
+                ));
                 let document_hook = (match plugin {
                     PluginSchema::GitHub { document_hook, .. } => document_hook,
                 })
-- 
2.43.0


From 25431d11f52d0147c43b79b76d114614cb168cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:48 +0000
Subject: [PATCH 12/35] fix: update Brack.toml all or nothing in brack add

A full disk or a crash in the middle of the write lost the configuration.
---
 crates/brack-project-manager/src/plugin.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 28f5bff..0e3808f 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -1,7 +1,8 @@
 use crate::config::Config;
+use crate::store::write_atomically;
 use core::fmt;
 use sha2::{Digest, Sha256};
-use std::{collections::HashMap, fs::File, io, path::Path};
+use std::{collections::HashMap, path::Path};
 
 use anyhow::Result;
 use serde::{
@@ -261,9 +262,10 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
     }
 
     let bytes = response.bytes().await?;
-    std::fs::create_dir_all("plugins")?;
-    let mut out = File::create(format!("plugins/{}.wasm", repository_name))?;
-    io::copy(&mut bytes.as_ref(), &mut out)?;
+    write_atomically(
+        Path::new(&format!("plugins/{}.wasm", repository_name)),
+        &bytes,
+    )?;
 
     config.plugins.get_or_insert_with(HashMap::new).insert(
         plugin_name.to_string(),
@@ -278,7 +280,7 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
         },
     );
     let toml = toml::to_string(&config)?;
-    std::fs::write("Brack.toml", toml)?;
+    write_atomically(Path::new("Brack.toml"), toml.as_bytes())?;
 
     Ok(())
 }
-- 
2.43.0


From ee546f34da0d6eea6451e3d4f721cf573b7f8872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:52 +0000
Subject: [PATCH 13/35] fix: quote the project name in the Brack.toml of a new
 project

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 28ab2fb..228eda5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -131,14 +131,14 @@ fn new_project(name: &str) -> Result<()> {
         format!("{}/Brack.toml", name),
         format!(
             r#"[document]
-name = "{}"
+name = {}
 version = "0.1.0"
 backend = ""
 authors = ["your name <your email>"]
 
 [plugins]
 "#,
-            name
+            toml::Value::from(name)
         ),
     )?;
     std::fs::write(
-- 
2.43.0


From 314a3332044bfa97622d24a5e11f2e941909eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:55 +0000
Subject: [PATCH 14/35] fix: fail the build of a document with errors

It was compiled without the broken parts and the build reported success.
---
 crates/brack-project-manager/src/project.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 3f1625b..e2190b5 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -140,7 +140,10 @@ impl Project {
             if path.extension() == Some("[]".as_ref()) {
                 let tokenized = brack_tokenizer::tokenize::tokenize(path.to_str().unwrap())?;
                 let parsed = brack_parser::parse::parse(&tokenized)?;
-                let (ast, _errors) = brack_transformer::transform::transform(&parsed);
+                let (ast, errors) = brack_transformer::transform::transform(&parsed);
+                if let Some(error) = errors.first() {
+                    anyhow::bail!("{}: {}", path.display(), error);
+                }
                 let expanded = brack_expander::expand::expander(&ast, &mut plugins)?;
                 let gen = brack_codegen::generate::generate(&expanded, &mut plugins)?;
                 std::fs::create_dir_all("out")?;
-- 
2.43.0


From f40048f479bd72ce250b126f5285a70cea4b7589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:00 +0000
Subject: [PATCH 15/35] fix: build a project that has no documents yet

out/ was only created for the first document and then always listed.
---
 crates/brack-project-manager/src/project.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index e2190b5..a8b3ba9 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -128,6 +128,8 @@ impl Project {
         }
         let mut plugins = Plugins::new(plugin_vec)?;
 
+        std::fs::create_dir_all("out")?;
+
         let entries = std::fs::read_dir("docs")?;
         for entry in entries {
             let entry = entry?;
@@ -146,7 +148,6 @@ impl Project {
                 }
                 let expanded = brack_expander::expand::expander(&ast, &mut plugins)?;
                 let gen = brack_codegen::generate::generate(&expanded, &mut plugins)?;
-                std::fs::create_dir_all("out")?;
                 std::fs::write(
                     format!("out/{}.{}", file_stem, self.config.document.backend),
                     gen,
-- 
2.43.0


From 234c8e73f5956234d626a7c3e4cb2b7ee26e2dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:35 +0000
Subject: [PATCH 16/35] fix: fail the compilation of a document with errors

brack compile printed the document without its broken parts and exited 0.
---
 src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 228eda5..ec6fa87 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -97,7 +97,10 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
         4 => {
             let tokens = brack_tokenizer::tokenize::tokenize(&filename)?;
             let cst = brack_parser::parse::parse(&tokens)?;
-            let (ast, _errors) = brack_transformer::transform::transform(&cst);
+            let (ast, errors) = brack_transformer::transform::transform(&cst);
+            if let Some(error) = errors.first() {
+                anyhow::bail!("{}: {}", filename, error);
+            }
             let expanded_ast = brack_expander::expand::expander(&ast, &mut plugins)?;
             if json {
                 let json = serde_json::to_string(&expanded_ast)?;
@@ -112,7 +115,10 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
             }
             let tokens = brack_tokenizer::tokenize::tokenize(&filename)?;
             let cst = brack_parser::parse::parse(&tokens)?;
-            let (ast, _errors) = brack_transformer::transform::transform(&cst);
+            let (ast, errors) = brack_transformer::transform::transform(&cst);
+            if let Some(error) = errors.first() {
+                anyhow::bail!("{}: {}", filename, error);
+            }
             let expanded_ast = brack_expander::expand::expander(&ast, &mut plugins)?;
             let gen = brack_codegen::generate::generate(&expanded_ast, &mut plugins)?;
             println!("{}", gen);
-- 
2.43.0


From f35d7b3c3339bd9f3a4006a9f8017d5b1b2ad360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:10 +0000
Subject: [PATCH 17/35] fix: reject malformed plugin specifications in brack
 add

---
 crates/brack-project-manager/src/plugin.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 0e3808f..f6d2231 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -211,6 +211,11 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
         .split('@')
         .nth(1)
         .ok_or_else(|| anyhow::anyhow!("Version is not found."))?;
+    if [owner, repo, version].contains(&"")
+        || schema != format!("{}:{}/{}@{}", repository_type, owner, repo, version)
+    {
+        return Err(anyhow::anyhow!("'{}' is not a plugin.", schema));
+    }
     let url = match repository_type {
         "github" => format!("https://github.com/{}/{}", owner, repo),
         _ => {
-- 
2.43.0


From 0b85e3ea39138861c674e52c71cc3acf18d2ceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:16 +0000
Subject: [PATCH 18/35] fix: accept documents that begin with blank lines

The parser expected the first token to start a statement and rejected
every document whose first line is empty, so such a document could not
be built and never got diagnostics.
---
 brack.cst.ebnf                   | 2 +-
 crates/brack-parser/src/parse.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/brack.cst.ebnf b/brack.cst.ebnf
index de1ad53..e705b7e 100644
--- a/brack.cst.ebnf
+++ b/brack.cst.ebnf
@@ -1,4 +1,4 @@
-document := (stmt newline newline+)* stmt? newline* EOF
+document := newline* (stmt newline newline+)* stmt? newline* EOF
 stmt := expr_or_close (newline expr_or_close)*
 expr_or_close := bracket_close | expr
 escaped := backslash (dot | comma | bracket_open | bracket_close | backslash)?
diff --git a/crates/brack-parser/src/parse.rs b/crates/brack-parser/src/parse.rs
index 923b5d8..5ad279d 100644
--- a/crates/brack-parser/src/parse.rs
+++ b/crates/brack-parser/src/parse.rs
@@ -6,11 +6,16 @@ use crate::{
     eof, newline, stmt,
 };
 
-// (stmt newline newline+)* stmt? newline* EOF
+// newline* (stmt newline newline+)* stmt? newline* EOF
 pub fn parse(tokens: &[Token]) -> Result<CST> {
     let mut tokens = tokens;
     let mut cst = new_document();
 
+    while let Ok((cst1, new_tokens)) = newline::parse(tokens) {
+        cst.add(cst1);
+        tokens = new_tokens;
+    }
+
     loop {
         let mut csts = vec![];
         let mut tokens1 = tokens;
-- 
2.43.0


From e0b6f0ad6e054350db051d6a5218a93053abcc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:44 +0000
Subject: [PATCH 19/35] fix: tokenize in a loop instead of by recursion

Every character and token added a stack frame holding copies of the
remaining text, so a document of a few kilobytes overflowed the stack
and killed the compiler or the language server.
---
 .../src/angle_bracket_close.rs                |  5 ++--
 .../brack-tokenizer/src/angle_bracket_open.rs |  5 ++--
 crates/brack-tokenizer/src/backslash.rs       |  5 ++--
 crates/brack-tokenizer/src/comma.rs           |  5 ++--
 .../src/curly_bracket_close.rs                |  5 ++--
 .../brack-tokenizer/src/curly_bracket_open.rs |  5 ++--
 crates/brack-tokenizer/src/dispatch.rs        | 25 ++++++++++++++++---
 crates/brack-tokenizer/src/dot.rs             |  5 ++--
 crates/brack-tokenizer/src/identifier.rs      |  5 ++--
 crates/brack-tokenizer/src/module.rs          |  5 ++--
 crates/brack-tokenizer/src/newline.rs         |  5 ++--
 .../src/square_bracket_close.rs               |  5 ++--
 .../src/square_bracket_open.rs                |  5 ++--
 crates/brack-tokenizer/src/text.rs            |  5 ++--
 crates/brack-tokenizer/src/whitespace.rs      |  5 ++--
 15 files changed, 49 insertions(+), 46 deletions(-)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index 5e32432..afe8bf0 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -47,5 +46,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         angle_nest_count: Some(angle_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/angle_bracket_open.rs b/crates/brack-tokenizer/src/angle_bracket_open.rs
index da23241..76e95e1 100644
--- a/crates/brack-tokenizer/src/angle_bracket_open.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_open.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -48,7 +47,7 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
 
 #[cfg(test)]
diff --git a/crates/brack-tokenizer/src/backslash.rs b/crates/brack-tokenizer/src/backslash.rs
index 6d300bb..6891226 100644
--- a/crates/brack-tokenizer/src/backslash.rs
+++ b/crates/brack-tokenizer/src/backslash.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -71,5 +70,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/comma.rs b/crates/brack-tokenizer/src/comma.rs
index 62af075..26a673c 100644
--- a/crates/brack-tokenizer/src/comma.rs
+++ b/crates/brack-tokenizer/src/comma.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -43,5 +42,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/curly_bracket_close.rs b/crates/brack-tokenizer/src/curly_bracket_close.rs
index 6044da8..327ec54 100644
--- a/crates/brack-tokenizer/src/curly_bracket_close.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_close.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -47,5 +46,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         curly_nest_count: Some(curly_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/curly_bracket_open.rs b/crates/brack-tokenizer/src/curly_bracket_open.rs
index 5444695..33ec7cc 100644
--- a/crates/brack-tokenizer/src/curly_bracket_open.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_open.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -48,5 +47,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index def265a..90e0e71 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -10,6 +10,22 @@ use crate::{
 use anyhow::Result;
 
 pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
+    let mut t = t.clone();
+    loop {
+        match step(&t)? {
+            Step::Next(t2) => t = t2,
+            Step::Done(tokens) => return Ok(tokens),
+        }
+    }
+}
+
+enum Step {
+    Next(Tokenizer),
+    Done(Vec<Token>),
+}
+
+// One call per token or character, from a loop: the stack must not grow with the document.
+fn step(t: &Tokenizer) -> Result<Step> {
     let s = t
         .untreated
         .clone()
@@ -45,7 +61,7 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
                 character: column,
             },
         }));
-        return Ok(tokens);
+        return Ok(Step::Done(tokens));
     }
 
     let (head2, _) = separate(&tail);
@@ -63,7 +79,7 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
         .looking_for_identifier
         .ok_or_else(|| anyhow::anyhow!("`t.looking_for_identifier` is not set"))?;
     let nested = (angle_c + curly_c + square_c) > 0;
-    match (&head[..], &head2[..]) {
+    let next = match (&head[..], &head2[..]) {
         ("\\", _) => backslash::tokenize(t),
         (_, ">") if look_for_ident => identifier::tokenize(t),
         (_, "}") if look_for_ident => identifier::tokenize(t),
@@ -92,7 +108,8 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
                 pool: Some(format!("{}{}", pool, head)),
                 ..Default::default()
             };
-            dispatch(&t.merge(&t2))
+            Ok(t.merge(&t2))
         }
-    }
+    };
+    next.map(Step::Next)
 }
diff --git a/crates/brack-tokenizer/src/dot.rs b/crates/brack-tokenizer/src/dot.rs
index 8e7e62e..6e02f88 100644
--- a/crates/brack-tokenizer/src/dot.rs
+++ b/crates/brack-tokenizer/src/dot.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -43,5 +42,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/identifier.rs b/crates/brack-tokenizer/src/identifier.rs
index 31f93bf..7b3f000 100644
--- a/crates/brack-tokenizer/src/identifier.rs
+++ b/crates/brack-tokenizer/src/identifier.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -58,5 +57,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(false),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/module.rs b/crates/brack-tokenizer/src/module.rs
index 5810d6d..e5a7de4 100644
--- a/crates/brack-tokenizer/src/module.rs
+++ b/crates/brack-tokenizer/src/module.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -56,5 +55,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/newline.rs b/crates/brack-tokenizer/src/newline.rs
index feb9e18..a093d5d 100644
--- a/crates/brack-tokenizer/src/newline.rs
+++ b/crates/brack-tokenizer/src/newline.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -44,5 +43,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/square_bracket_close.rs b/crates/brack-tokenizer/src/square_bracket_close.rs
index 7a33d18..f302ac3 100644
--- a/crates/brack-tokenizer/src/square_bracket_close.rs
+++ b/crates/brack-tokenizer/src/square_bracket_close.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -47,5 +46,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         square_nest_count: Some(square_nest_count - 1),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/square_bracket_open.rs b/crates/brack-tokenizer/src/square_bracket_open.rs
index 5be2c55..0e6d71f 100644
--- a/crates/brack-tokenizer/src/square_bracket_open.rs
+++ b/crates/brack-tokenizer/src/square_bracket_open.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -48,5 +47,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         looking_for_identifier: Some(true),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/text.rs b/crates/brack-tokenizer/src/text.rs
index 2400693..3797fef 100644
--- a/crates/brack-tokenizer/src/text.rs
+++ b/crates/brack-tokenizer/src/text.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -56,5 +55,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
diff --git a/crates/brack-tokenizer/src/whitespace.rs b/crates/brack-tokenizer/src/whitespace.rs
index 08a7a78..2228787 100644
--- a/crates/brack-tokenizer/src/whitespace.rs
+++ b/crates/brack-tokenizer/src/whitespace.rs
@@ -1,12 +1,11 @@
 use crate::{
-    dispatch::dispatch,
     tokenizer::Tokenizer,
     tokens::{Location, LocationData, Token},
     utils::separate,
 };
 use anyhow::Result;
 
-pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
+pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
     let s = t
         .untreated
         .clone()
@@ -43,5 +42,5 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         tokens: Some(tokens),
         ..Default::default()
     };
-    dispatch(&t.merge(&t2))
+    Ok(t.merge(&t2))
 }
-- 
2.43.0


From ca0e1cd8c4d0f5e7a7adf766706f5f782a6415aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:44 +0000
Subject: [PATCH 20/35] fix: treat CRLF as a line end

A carriage return and line feed form one grapheme, which was taken for
text: a document saved with CRLF was one single line, and every position
reported for it was wrong.
---
 crates/brack-tokenizer/src/dispatch.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index 90e0e71..d4b7e73 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -93,10 +93,10 @@ fn step(t: &Tokenizer) -> Result<Step> {
         (".", _) if nested => dot::tokenize(t),
         (",", _) if nested => comma::tokenize(t),
         (" ", _) if nested => whitespace::tokenize(t),
-        ("\n", _) => newline::tokenize(t),
+        ("\n", _) | ("\r\n", _) => newline::tokenize(t),
         (_, " ") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
-        (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\0") => text::tokenize(t),
+        (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\r\n") | (_, "\0") => text::tokenize(t),
         (_, " ") if nested => text::tokenize(t),
         (_, ",") if nested => text::tokenize(t),
         (_, ".") if nested => text::tokenize(t),
-- 
2.43.0


From 39039c459f2442b153ec5ddd1e8dad5096df8c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:20 +0000
Subject: [PATCH 21/35] fix: do not end a document at a NUL character

The end of the text was recognised by a NUL character, so a document
containing one was silently cut off there and still built successfully.
---
 crates/brack-tokenizer/src/dispatch.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index d4b7e73..6d0d6b5 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -40,7 +40,7 @@ fn step(t: &Tokenizer) -> Result<Step> {
 
     let (head, tail) = separate(&s);
 
-    if head == "\0" {
+    if s.is_empty() {
         let mut tokens = t
             .tokens
             .clone()
@@ -96,7 +96,8 @@ fn step(t: &Tokenizer) -> Result<Step> {
         ("\n", _) | ("\r\n", _) => newline::tokenize(t),
         (_, " ") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
-        (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\r\n") | (_, "\0") => text::tokenize(t),
+        (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\r\n") => text::tokenize(t),
+        _ if tail.is_empty() => text::tokenize(t),
         (_, " ") if nested => text::tokenize(t),
         (_, ",") if nested => text::tokenize(t),
         (_, ".") if nested => text::tokenize(t),
-- 
2.43.0


From 657d189c72dca124b0b325a084f9d194a932db88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:40 +0000
Subject: [PATCH 22/35] fix: report positions to the client in UTF-16 code
 units

The language server sent token columns as they are, in graphemes, but
LSP positions are UTF-16 offsets unless negotiated otherwise: everything
after an emoji or a combining character was reported in the wrong place.
---
 crates/brack-language-server/src/lib.rs       |  1 +
 .../src/notification/did_save.rs              | 13 ++----
 crates/brack-language-server/src/position.rs  | 42 +++++++++++++++++++
 .../src/request/semantic_tokens.rs            | 17 ++++----
 4 files changed, 57 insertions(+), 16 deletions(-)
 create mode 100644 crates/brack-language-server/src/position.rs

diff --git a/crates/brack-language-server/src/lib.rs b/crates/brack-language-server/src/lib.rs
index 10a63f2..d4feef1 100644
--- a/crates/brack-language-server/src/lib.rs
+++ b/crates/brack-language-server/src/lib.rs
@@ -1,4 +1,5 @@
 mod notification;
+mod position;
 mod request;
 mod response;
 mod result;
diff --git a/crates/brack-language-server/src/notification/did_save.rs b/crates/brack-language-server/src/notification/did_save.rs
index aecee22..b9b16cd 100644
--- a/crates/brack-language-server/src/notification/did_save.rs
+++ b/crates/brack-language-server/src/notification/did_save.rs
@@ -4,7 +4,7 @@ use brack_tokenizer::tokenize::tokenize;
 use brack_transformer::transform::transform;
 use lsp_types::{Diagnostic, DidSaveTextDocumentParams};
 
-use crate::server::Server;
+use crate::{position::Positions, server::Server};
 
 impl Server {
     pub(crate) async fn handle_text_document_did_save(
@@ -33,20 +33,15 @@ impl Server {
             return self.send_publish_diagnostics(uri, &diagnostics).await;
         }
 
+        let positions = Positions::new(&tokens);
         let mut diagnostics = vec![];
         for error in errors {
             let location = error.get_location();
             let message = error.get_message();
             let diagnostic = Diagnostic {
                 range: lsp_types::Range {
-                    start: lsp_types::Position {
-                        line: location.start.line as u32,
-                        character: location.start.character as u32,
-                    },
-                    end: lsp_types::Position {
-                        line: location.end.line as u32,
-                        character: location.end.character as u32,
-                    },
+                    start: positions.get(&location.start),
+                    end: positions.get(&location.end),
                 },
                 message,
                 ..Default::default()
diff --git a/crates/brack-language-server/src/position.rs b/crates/brack-language-server/src/position.rs
new file mode 100644
index 0000000..21fa15e
--- /dev/null
+++ b/crates/brack-language-server/src/position.rs
@@ -0,0 +1,42 @@
+use std::collections::HashMap;
+
+use brack_tokenizer::tokens::{LocationData, Token};
+use lsp_types::Position;
+
+/// Converts the locations of one document's tokens, whose columns count graphemes,
+/// to LSP positions, whose columns count UTF-16 code units.
+pub(crate) struct Positions {
+    columns: HashMap<(usize, usize), u32>,
+}
+
+impl Positions {
+    pub(crate) fn new(tokens: &[Token]) -> Self {
+        let mut columns = HashMap::new();
+        let mut line = 0;
+        let mut column = 0;
+        for token in tokens {
+            let location = token.get_location();
+            if location.start.line != line {
+                line = location.start.line;
+                column = 0;
+            }
+            columns.insert((line, location.start.character), column);
+            column += match token {
+                Token::Text(text, _) | Token::Module(text, _) | Token::Ident(text, _) => {
+                    text.encode_utf16().count()
+                }
+                _ => location.end.character - location.start.character,
+            } as u32;
+            columns.insert((line, location.end.character), column);
+        }
+        Self { columns }
+    }
+
+    pub(crate) fn get(&self, location: &LocationData) -> Position {
+        let column = self.columns.get(&(location.line, location.character));
+        Position {
+            line: location.line as u32,
+            character: column.copied().unwrap_or(location.character as u32),
+        }
+    }
+}
diff --git a/crates/brack-language-server/src/request/semantic_tokens.rs b/crates/brack-language-server/src/request/semantic_tokens.rs
index f24387f..2e95ba0 100644
--- a/crates/brack-language-server/src/request/semantic_tokens.rs
+++ b/crates/brack-language-server/src/request/semantic_tokens.rs
@@ -2,7 +2,7 @@ use anyhow::Result;
 use brack_tokenizer::{tokenize::tokenize, tokens::Token};
 use lsp_types::{SemanticToken, SemanticTokenType, SemanticTokens, SemanticTokensParams};
 
-use crate::server::Server;
+use crate::{position::Positions, server::Server};
 
 fn token_kind_to_type(token: &Token) -> u32 {
     let typ = match token {
@@ -45,6 +45,7 @@ fn token_type_as_u32(token_type: SemanticTokenType) -> u32 {
 }
 
 fn separate(tokens: &Vec<Token>) -> Vec<SemanticToken> {
+    let positions = Positions::new(tokens);
     let mut semantic_tokens = Vec::new();
     let mut prev_line = 0;
     let mut prev_char = 0;
@@ -52,6 +53,8 @@ fn separate(tokens: &Vec<Token>) -> Vec<SemanticToken> {
 
     for token in tokens {
         let location = token.get_location();
+        let start = positions.get(&location.start);
+        let end = positions.get(&location.end);
         // What a backslash escapes is text, whatever it would be by itself.
         let token_type = if escaped {
             100
@@ -59,23 +62,23 @@ fn separate(tokens: &Vec<Token>) -> Vec<SemanticToken> {
             token_kind_to_type(token)
         };
         escaped = matches!(token, Token::BackSlash(_)) && !escaped;
-        let delta_line = location.start.line as u32 - prev_line;
+        let delta_line = start.line - prev_line;
         let delta_start = if delta_line == 0 {
-            location.start.character as u32 - prev_char
+            start.character - prev_char
         } else {
-            location.start.character as u32
+            start.character
         };
 
         semantic_tokens.push(SemanticToken {
             delta_line,
             delta_start,
-            length: (location.end.character - location.start.character) as u32,
+            length: end.character - start.character,
             token_type,
             token_modifiers_bitset: 0,
         });
 
-        prev_line = location.start.line as u32;
-        prev_char = location.start.character as u32;
+        prev_line = start.line;
+        prev_char = start.character;
     }
 
     semantic_tokens
-- 
2.43.0


From 641eb96679632b0693a15fd77492a4d2bf737c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 23/35] fix: report closing brackets that close nothing

A stray or mismatched closing bracket made the parser fail, so the
document got no diagnostics at all, or it was silently dropped when it
began a line. It is now kept by the parser and reported as not opened,
and it no longer upsets the nesting depth of the text behind it.
---
 brack.cst.ebnf                                     |  2 +-
 crates/brack-parser/src/stmt.rs                    |  7 ++++++-
 crates/brack-tokenizer/src/angle_bracket_close.rs  |  4 +++-
 crates/brack-tokenizer/src/curly_bracket_close.rs  |  4 +++-
 crates/brack-tokenizer/src/square_bracket_close.rs |  4 +++-
 crates/brack-tokenizer/src/tokenizer.rs            | 13 +++++++++++++
 crates/brack-transformer/src/stmt.rs               | 12 ++++++++++++
 7 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/brack.cst.ebnf b/brack.cst.ebnf
index e705b7e..eda64f8 100644
--- a/brack.cst.ebnf
+++ b/brack.cst.ebnf
@@ -1,5 +1,5 @@
 document := newline* (stmt newline newline+)* stmt? newline* EOF
-stmt := expr_or_close (newline expr_or_close)*
+stmt := expr_or_close+ (newline expr_or_close+)*
 expr_or_close := bracket_close | expr
 escaped := backslash (dot | comma | bracket_open | bracket_close | backslash)?
 expr := (escaped | module | ident | bracket | dot | comma | whitespace | text)+
diff --git a/crates/brack-parser/src/stmt.rs b/crates/brack-parser/src/stmt.rs
index ea65d1d..35eb416 100644
--- a/crates/brack-parser/src/stmt.rs
+++ b/crates/brack-parser/src/stmt.rs
@@ -2,13 +2,18 @@ use crate::{cst::new_stmt, expr_or_close, newline, parser::Parser};
 use anyhow::Result;
 use brack_tokenizer::tokens::Token;
 
-// expr_or_close (newline expr_or_close)*
+// expr_or_close+ (newline expr_or_close+)*
 pub fn parse(tokens: &[Token]) -> Result<Parser> {
     let mut stmt = new_stmt();
     let (cst, mut tokens) = expr_or_close::parse(tokens)?;
     stmt.add(cst);
 
     loop {
+        if let Ok((cst1, new_tokens)) = expr_or_close::parse(tokens) {
+            stmt.add(cst1);
+            tokens = new_tokens;
+            continue;
+        }
         if let Ok((cst1, new_tokens)) = newline::parse(tokens) {
             if let Ok((cst2, new_tokens)) = expr_or_close::parse(new_tokens) {
                 stmt.add(cst1);
diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index afe8bf0..0ebb687 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -37,13 +37,15 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         },
     }));
 
+    // A bracket that closes nothing leaves the nesting as it is.
+    let closed = if t.is_nested() { 1 } else { 0 };
     let t2 = Tokenizer {
         column: Some(column + 1),
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        angle_nest_count: Some(angle_nest_count - 1),
+        angle_nest_count: Some(angle_nest_count - closed),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/curly_bracket_close.rs b/crates/brack-tokenizer/src/curly_bracket_close.rs
index 327ec54..d5fab1d 100644
--- a/crates/brack-tokenizer/src/curly_bracket_close.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_close.rs
@@ -37,13 +37,15 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         },
     }));
 
+    // A bracket that closes nothing leaves the nesting as it is.
+    let closed = if t.is_nested() { 1 } else { 0 };
     let t2 = Tokenizer {
         column: Some(column + 1),
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        curly_nest_count: Some(curly_nest_count - 1),
+        curly_nest_count: Some(curly_nest_count - closed),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/square_bracket_close.rs b/crates/brack-tokenizer/src/square_bracket_close.rs
index f302ac3..6533041 100644
--- a/crates/brack-tokenizer/src/square_bracket_close.rs
+++ b/crates/brack-tokenizer/src/square_bracket_close.rs
@@ -37,13 +37,15 @@ pub fn tokenize(t: &Tokenizer) -> Result<Tokenizer> {
         },
     }));
 
+    // A bracket that closes nothing leaves the nesting as it is.
+    let closed = if t.is_nested() { 1 } else { 0 };
     let t2 = Tokenizer {
         column: Some(column + 1),
         token_start_column: Some(column + 1),
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        square_nest_count: Some(square_nest_count - 1),
+        square_nest_count: Some(square_nest_count - closed),
         ..Default::default()
     };
     Ok(t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/tokenizer.rs b/crates/brack-tokenizer/src/tokenizer.rs
index 53a9912..d726d21 100644
--- a/crates/brack-tokenizer/src/tokenizer.rs
+++ b/crates/brack-tokenizer/src/tokenizer.rs
@@ -17,6 +17,19 @@ pub struct Tokenizer {
 }
 
 impl Tokenizer {
+    /// Whether the text to come is inside of a bracket.
+    pub fn is_nested(&self) -> bool {
+        [
+            self.angle_nest_count,
+            self.curly_nest_count,
+            self.square_nest_count,
+        ]
+        .iter()
+        .flatten()
+        .sum::<i32>()
+            > 0
+    }
+
     pub fn merge(&self, other: &Tokenizer) -> Tokenizer {
         Tokenizer {
             uri: other.uri.clone(),
diff --git a/crates/brack-transformer/src/stmt.rs b/crates/brack-transformer/src/stmt.rs
index 59b3cfd..b228bd2 100644
--- a/crates/brack-transformer/src/stmt.rs
+++ b/crates/brack-transformer/src/stmt.rs
@@ -12,6 +12,18 @@ pub fn simplify(cst: &CST) -> (CST, Vec<TransformError>) {
     let mut csts = vec![];
 
     for child in node.children.clone() {
+        match &child {
+            CST::AngleBracketClose(node) => {
+                errors.push(TransformError::AngleNotOpened(node.location.clone()))
+            }
+            CST::CurlyBracketClose(node) => {
+                errors.push(TransformError::CurlyNotOpened(node.location.clone()))
+            }
+            CST::SquareBracketClose(node) => {
+                errors.push(TransformError::SquareNotOpened(node.location.clone()))
+            }
+            _ => (),
+        }
         let (cst, mut node_errors) = simplify::simplify(&child);
         csts.push(cst);
         errors.append(&mut node_errors);
-- 
2.43.0


From 0e1caf4fe98ad930d1a7989945be1edc5a1296d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:35 +0000
Subject: [PATCH 24/35] fix: reject plugin names that are paths

A plugin named '../x' was stored outside of the project's plugins directory.
---
 crates/brack-project-manager/src/project.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index a8b3ba9..3c0d74b 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -46,6 +46,9 @@ impl Project {
         if let Some(plugins) = self.config.plugins.clone() {
             let mut tasks = vec![];
             for (name, plugin) in plugins {
+                if name.contains(['/', '\\']) {
+                    anyhow::bail!("'{}' is not a name of a plugin.", name);
+                }
                 let path = self.root.join(format!(
                     "plugins/{}_{}.wasm",
                     name,
-- 
2.43.0


From 4762bb33f0624b34dcbb67b8ff10cd5c1933a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 25/35] fix: keep unknown configuration in brack add

Keys of Brack.toml that are not part of the configuration were dropped.
---
 crates/brack-project-manager/src/plugin.rs | 36 +++++++++++++---------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index f6d2231..504055d 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -2,7 +2,7 @@ use crate::config::Config;
 use crate::store::write_atomically;
 use core::fmt;
 use sha2::{Digest, Sha256};
-use std::{collections::HashMap, path::Path};
+use std::path::Path;
 
 use anyhow::Result;
 use serde::{
@@ -226,7 +226,10 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
         }
     };
 
-    let mut config: Config = toml::from_str(&std::fs::read_to_string("Brack.toml")?)?;
+    let text = std::fs::read_to_string("Brack.toml")?;
+    let config: Config = toml::from_str(&text)?;
+    // What a configuration does not know stays in the file.
+    let mut table: toml::Table = toml::from_str(&text)?;
 
     let repository_name = url
         .trim_end_matches('/')
@@ -272,19 +275,22 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
         &bytes,
     )?;
 
-    config.plugins.get_or_insert_with(HashMap::new).insert(
-        plugin_name.to_string(),
-        PluginSchema::GitHub {
-            owner: owner.to_string(),
-            repo: repo.to_string(),
-            version: version.to_string(),
-            expr_hook: None,
-            stmt_hook: None,
-            document_hook: None,
-            text_hook: None,
-        },
-    );
-    let toml = toml::to_string(&config)?;
+    let plugin = PluginSchema::GitHub {
+        owner: owner.to_string(),
+        repo: repo.to_string(),
+        version: version.to_string(),
+        expr_hook: None,
+        stmt_hook: None,
+        document_hook: None,
+        text_hook: None,
+    };
+    table
+        .entry("plugins")
+        .or_insert_with(|| toml::Table::new().into())
+        .as_table_mut()
+        .ok_or_else(|| anyhow::anyhow!("Plugins are not a table."))?
+        .insert(plugin_name.to_string(), toml::Value::try_from(plugin)?);
+    let toml = toml::to_string(&table)?;
     write_atomically(Path::new("Brack.toml"), toml.as_bytes())?;
 
     Ok(())
-- 
2.43.0


From eb15726ceac3ed722f5f6724c598eeb0054e1fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:47 +0000
Subject: [PATCH 26/35] fix: take the whole file name for the module in brack
 compile

The pattern matched anywhere in the path, so module names with digits or
underscores were cut and files such as std_0a.wasm.bak were loaded.
---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ec6fa87..8f8e223 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -31,13 +31,15 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
         None => std::env::var("BRACK_PLUGINS_PATH").unwrap_or_default(),
     };
 
-    let pattern = Regex::new(r"(?<module_name>[[:alpha:]]+)_[[:alnum:]]+.wasm").unwrap();
+    let pattern = Regex::new(r"^(?<module_name>.+)_[[:alnum:]]+\.wasm$").unwrap();
     let entries = std::fs::read_dir(plugins_dir_path)?;
     for entry in entries {
         let entry = entry?;
         let path = entry.path();
+        let file_name = entry.file_name();
         let capture = pattern.captures(
-            path.to_str()
+            file_name
+                .to_str()
                 .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?,
         );
         if let Some(capture) = capture {
-- 
2.43.0


From 1435b20e3abe1eb8cee13ee07b8a185f4c946858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:51 +0000
Subject: [PATCH 27/35] fix: fail if two plugin files provide one module in
 brack compile

Which of them was used depended on the order of the directory.
---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 8f8e223..ce8b8f0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -44,7 +44,10 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
         );
         if let Some(capture) = capture {
             let module_name = capture.name("module_name").unwrap().as_str();
-            pathes.insert(module_name.to_string(), (path, FeatureFlag::default()));
+            let plugin = (path, FeatureFlag::default());
+            if pathes.insert(module_name.to_string(), plugin).is_some() {
+                anyhow::bail!("There are several plugins named {}.", module_name);
+            }
         }
     }
 
-- 
2.43.0


From f636333abdf1bdf43a50c238b08d2c7c7c6d61e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:08 +0000
Subject: [PATCH 28/35] fix: replace macro calls by their expansion

---
 crates/brack-expander/src/expand.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/brack-expander/src/expand.rs b/crates/brack-expander/src/expand.rs
index 43fb9a3..6015fb0 100644
--- a/crates/brack-expander/src/expand.rs
+++ b/crates/brack-expander/src/expand.rs
@@ -49,7 +49,17 @@ fn expand_other(overall_ast: &AST, ast: &AST, plugins: &mut Plugins) -> Result<A
             _ => children.push(expand_other(overall_ast, child, plugins)?),
         }
     }
-    Ok(ast.clone())
+    let mut expanded = ast.clone();
+    match &mut expanded {
+        AST::Document(node)
+        | AST::Stmt(node)
+        | AST::Expr(node)
+        | AST::Angle(node)
+        | AST::Square(node)
+        | AST::Curly(node) => node.children = children,
+        _ => {}
+    }
+    Ok(expanded)
 }
 
 pub fn expander(ast: &AST, plugins: &mut Plugins) -> Result<AST> {
-- 
2.43.0


From 9279b06d08e07d1bab2cde48bdd83b2631a54b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:13 +0000
Subject: [PATCH 29/35] fix: accept commands with optional and array arguments
 left out

---
 crates/brack-codegen/src/curly.rs  | 8 ++++++--
 crates/brack-codegen/src/square.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/brack-codegen/src/curly.rs b/crates/brack-codegen/src/curly.rs
index 4d9b7cb..981bf6c 100644
--- a/crates/brack-codegen/src/curly.rs
+++ b/crates/brack-codegen/src/curly.rs
@@ -81,8 +81,12 @@ pub(crate) fn generate(ast: &AST, plugins: &mut Plugins) -> Result<String> {
                     Value::TextOption(None)
                 }
             }
-            Type::TArray(_) => Value::TextArray(arguments[i..].to_vec()),
-            _ => Value::Text(arguments[i].clone()),
+            Type::TArray(_) => {
+                Value::TextArray(arguments.get(i..).map(|a| a.to_vec()).unwrap_or_default())
+            }
+            _ => Value::Text(arguments.get(i).cloned().ok_or_else(|| {
+                anyhow::anyhow!("{} requires at least {} arguments", ident_name, i + 1)
+            })?),
         };
         args.push(arg);
     }
diff --git a/crates/brack-codegen/src/square.rs b/crates/brack-codegen/src/square.rs
index 70e14eb..dd44922 100644
--- a/crates/brack-codegen/src/square.rs
+++ b/crates/brack-codegen/src/square.rs
@@ -81,8 +81,12 @@ pub(crate) fn generate(ast: &AST, plugins: &mut Plugins) -> Result<String> {
                     Value::TextOption(None)
                 }
             }
-            Type::TArray(_) => Value::TextArray(arguments[i..].to_vec()),
-            _ => Value::Text(arguments[i].clone()),
+            Type::TArray(_) => {
+                Value::TextArray(arguments.get(i..).map(|a| a.to_vec()).unwrap_or_default())
+            }
+            _ => Value::Text(arguments.get(i).cloned().ok_or_else(|| {
+                anyhow::anyhow!("{} requires at least {} arguments", ident_name, i + 1)
+            })?),
         };
         args.push(arg);
     }
-- 
2.43.0


From 391d07a6c0122d161b91ec04301a6a04a319f124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:36 +0000
Subject: [PATCH 30/35] fix: keep the spaces inside of arguments

---
 crates/brack-transformer/src/utils.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/brack-transformer/src/utils.rs b/crates/brack-transformer/src/utils.rs
index f3ea54c..dbaf62f 100644
--- a/crates/brack-transformer/src/utils.rs
+++ b/crates/brack-transformer/src/utils.rs
@@ -111,13 +111,36 @@ pub fn check_unexpected_dot(csts: &[CST]) -> Vec<TransformError> {
     errors
 }
 
+// Whitespaces around the parts of a command are removed, those inside of an argument belong to it.
 pub fn remove_whitespaces_and_newlines(csts: &Vec<CST>) -> Vec<CST> {
     let mut result = vec![];
+    let mut whitespaces = vec![];
     for cst in csts {
         match cst {
-            CST::Whitespace(_) | CST::Newline(_) => (),
-            _ => result.push(cst.clone()),
+            CST::Newline(_) => (),
+            CST::Whitespace(_) => whitespaces.push(cst.clone()),
+            _ => {
+                let previous = result.iter().skip(4).last();
+                if previous.is_some_and(|previous| !separates_arguments(previous))
+                    && !separates_arguments(cst)
+                {
+                    result.append(&mut whitespaces);
+                }
+                whitespaces.clear();
+                result.push(cst.clone());
+            }
         }
     }
     result
 }
+
+fn separates_arguments(cst: &CST) -> bool {
+    matches!(
+        cst,
+        CST::Comma(_)
+            | CST::Dot(_)
+            | CST::AngleBracketClose(_)
+            | CST::CurlyBracketClose(_)
+            | CST::SquareBracketClose(_)
+    )
+}
-- 
2.43.0


From 7cb0469031d44e3c76e62d9ca5132fc379893129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:45 +0000
Subject: [PATCH 31/35] fix: build the documents in the order of their names

---
 crates/brack-project-manager/src/project.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 3c0d74b..8b02946 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -133,10 +133,12 @@ impl Project {
 
         std::fs::create_dir_all("out")?;
 
-        let entries = std::fs::read_dir("docs")?;
-        for entry in entries {
-            let entry = entry?;
-            let path = entry.path();
+        // Plugins may keep a state, so the order of the documents matters.
+        let mut paths = std::fs::read_dir("docs")?
+            .map(|entry| entry.map(|entry| entry.path()))
+            .collect::<std::io::Result<Vec<_>>>()?;
+        paths.sort();
+        for path in paths {
             let file_stem = path
                 .file_stem()
                 .ok_or_else(|| anyhow::anyhow!("Could not get file name from path."))?
-- 
2.43.0


From 3aa5b29946e9500611ca7d0565da6db46e252172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:01 +0000
Subject: [PATCH 32/35] fix: give up on downloads that nothing is heard of

---
 crates/brack-project-manager/src/plugin.rs  | 4 ++--
 crates/brack-project-manager/src/project.rs | 5 ++---
 crates/brack-project-manager/src/store.rs   | 9 +++++++++
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 504055d..4b33e3c 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -1,5 +1,5 @@
 use crate::config::Config;
-use crate::store::write_atomically;
+use crate::store::{get, write_atomically};
 use core::fmt;
 use sha2::{Digest, Sha256};
 use std::path::Path;
@@ -255,7 +255,7 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
         url, version, repository_name
     );
 
-    let response = reqwest::get(&download_url).await?;
+    let response = get(&download_url).await?;
 
     if !response.status().is_success() {
         return Err(anyhow::anyhow!(
diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 8b02946..5a2a7df 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -1,11 +1,10 @@
 use crate::config::Config;
 use crate::plugin::PluginSchema;
-use crate::store::write_atomically;
+use crate::store::{get, write_atomically};
 use anyhow::Result;
 use brack_plugin::{feature_flag::FeatureFlag, plugin::Plugin, plugins::Plugins};
 use bytes::Bytes;
 use futures::future::join_all;
-use reqwest;
 use std::{
     collections::HashMap,
     path::{Path, PathBuf},
@@ -93,7 +92,7 @@ impl Project {
                         );
                         let task: JoinHandle<Result<(String, PathBuf, Bytes, FeatureFlag)>> =
                             task::spawn(async move {
-                                let response = reqwest::get(&url).await?;
+                                let response = get(&url).await?;
                                 if !response.status().is_success() {
                                     anyhow::bail!(
                                         "Failed to download plugin from {}.\nStatus: {} - {}",
diff --git a/crates/brack-project-manager/src/store.rs b/crates/brack-project-manager/src/store.rs
index 17e5a1f..bc84ea2 100644
--- a/crates/brack-project-manager/src/store.rs
+++ b/crates/brack-project-manager/src/store.rs
@@ -3,8 +3,17 @@ use std::{
     fs::{create_dir_all, remove_file, rename, File},
     io::Write,
     path::Path,
+    time::Duration,
 };
 
+/// Requests `url`, and gives up when nothing is heard for a minute.
+pub(crate) async fn get(url: &str) -> reqwest::Result<reqwest::Response> {
+    let client = reqwest::Client::builder()
+        .read_timeout(Duration::from_secs(60))
+        .build()?;
+    client.get(url).send().await
+}
+
 /// Writes `bytes` to `path`, which holds either what it held before or all of
 /// `bytes` at any time, even if the process or the system dies on the way.
 pub(crate) fn write_atomically(path: &Path, bytes: &[u8]) -> Result<()> {
-- 
2.43.0


From 6677aeacd5930619cf0425f96aa226ff793d398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:29 +0000
Subject: [PATCH 33/35] fix: refuse brackets nested too deeply for the stack

---
 crates/brack-parser/src/parse.rs | 37 +++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/crates/brack-parser/src/parse.rs b/crates/brack-parser/src/parse.rs
index 5ad279d..ffa8874 100644
--- a/crates/brack-parser/src/parse.rs
+++ b/crates/brack-parser/src/parse.rs
@@ -1,4 +1,4 @@
-use anyhow::Result;
+use anyhow::{bail, Result};
 use brack_tokenizer::tokens::Token;
 
 use crate::{
@@ -6,8 +6,43 @@ use crate::{
     eof, newline, stmt,
 };
 
+/// Every level of nested brackets takes its share of the stack, here and later on.
+const MAX_DEPTH: usize = 256;
+
+fn check_depth(tokens: &[Token]) -> Result<()> {
+    let mut expected = vec![];
+    let mut tokens = tokens.iter();
+    while let Some(token) = tokens.next() {
+        match token {
+            Token::BackSlash(_) => {
+                tokens.next();
+            }
+            Token::AngleBracketOpen(_) => expected.push('>'),
+            Token::CurlyBracketOpen(_) => expected.push('}'),
+            Token::SquareBracketOpen(_) => expected.push(']'),
+            // A bracket also ends those left open inside of it.
+            Token::AngleBracketClose(_) => while expected.pop().is_some_and(|b| b != '>') {},
+            Token::CurlyBracketClose(_) => while expected.pop().is_some_and(|b| b != '}') {},
+            Token::SquareBracketClose(_) => while expected.pop().is_some_and(|b| b != ']') {},
+            _ => {}
+        }
+        if expected.len() > MAX_DEPTH {
+            let start = token.get_location().start;
+            bail!(
+                "{}:{}: Brackets are nested more than {} levels deep",
+                start.line + 1,
+                start.character + 1,
+                MAX_DEPTH
+            );
+        }
+    }
+    Ok(())
+}
+
 // newline* (stmt newline newline+)* stmt? newline* EOF
 pub fn parse(tokens: &[Token]) -> Result<CST> {
+    check_depth(tokens)?;
+
     let mut tokens = tokens;
     let mut cst = new_document();
 
-- 
2.43.0


From 2347c9897070eafbbbe5c090fade8b6540c83d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:23 +0000
Subject: [PATCH 34/35] fix: keep edits of Brack.toml made while a plugin is
 downloaded

---
 crates/brack-project-manager/src/plugin.rs | 32 +++++++++++++---------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 4b33e3c..df11451 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -184,6 +184,22 @@ fn check_existence_brack_toml() -> bool {
     path.exists()
 }
 
+/// Reads Brack.toml, which must not have a plugin named `plugin_name` yet. What a
+/// configuration does not know stays in the table.
+fn read_config_without(plugin_name: &str) -> Result<toml::Table> {
+    let text = std::fs::read_to_string("Brack.toml")?;
+    let config: Config = toml::from_str(&text)?;
+    if config
+        .plugins
+        .as_ref()
+        .and_then(|plugins| plugins.get(plugin_name))
+        .is_some()
+    {
+        return Err(anyhow::anyhow!("Plugin already exists."));
+    }
+    Ok(toml::from_str(&text)?)
+}
+
 pub async fn add_plugin(schema: &str) -> Result<()> {
     if !check_existence_brack_toml() {
         return Err(anyhow::anyhow!("Brack.toml is not found."));
@@ -226,11 +242,6 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
         }
     };
 
-    let text = std::fs::read_to_string("Brack.toml")?;
-    let config: Config = toml::from_str(&text)?;
-    // What a configuration does not know stays in the file.
-    let mut table: toml::Table = toml::from_str(&text)?;
-
     let repository_name = url
         .trim_end_matches('/')
         .split('/')
@@ -241,14 +252,7 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
         .next()
         .ok_or_else(|| anyhow::anyhow!("First element of repository name is not found."))?;
 
-    if config
-        .plugins
-        .as_ref()
-        .and_then(|plugins| plugins.get(plugin_name))
-        .is_some()
-    {
-        return Err(anyhow::anyhow!("Plugin already exists."));
-    }
+    read_config_without(plugin_name)?;
 
     let download_url = format!(
         "{}/releases/download/{}/{}.wasm",
@@ -270,6 +274,8 @@ pub async fn add_plugin(schema: &str) -> Result<()> {
     }
 
     let bytes = response.bytes().await?;
+    // It may have been edited in the meantime.
+    let mut table = read_config_without(plugin_name)?;
     write_atomically(
         Path::new(&format!("plugins/{}.wasm", repository_name)),
         &bytes,
-- 
2.43.0


From 8eb320d78611ee9927c23eea046512ee2cd7fd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:24 +0000
Subject: [PATCH 35/35] fix: ignore files whose names are not UTF-8

---
 crates/brack-project-manager/src/project.rs | 18 ++++++------------
 src/main.rs                                 |  7 ++-----
 2 files changed, 8 insertions(+), 17 deletions(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 5a2a7df..8e6072f 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -138,12 +138,12 @@ impl Project {
             .collect::<std::io::Result<Vec<_>>>()?;
         paths.sort();
         for path in paths {
-            let file_stem = path
-                .file_stem()
-                .ok_or_else(|| anyhow::anyhow!("Could not get file name from path."))?
-                .to_str()
-                .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?;
             if path.extension() == Some("[]".as_ref()) {
+                let file_stem = path
+                    .file_stem()
+                    .ok_or_else(|| anyhow::anyhow!("Could not get file name from path."))?
+                    .to_str()
+                    .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?;
                 let tokenized = brack_tokenizer::tokenize::tokenize(path.to_str().unwrap())?;
                 let parsed = brack_parser::parse::parse(&tokenized)?;
                 let (ast, errors) = brack_transformer::transform::transform(&parsed);
@@ -162,13 +162,7 @@ impl Project {
         println!("Build succeeded.");
         for out in std::fs::read_dir("out")? {
             let out = out?;
-            let path = out.path();
-            let file_stem = path
-                .file_name()
-                .ok_or_else(|| anyhow::anyhow!("Could not get file name from path."))?
-                .to_str()
-                .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?;
-            println!("  - ./out/{}", file_stem);
+            println!("  - ./out/{}", out.file_name().to_string_lossy());
         }
         Ok(())
     }
diff --git a/src/main.rs b/src/main.rs
index ce8b8f0..895807c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -37,11 +37,8 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
         let entry = entry?;
         let path = entry.path();
         let file_name = entry.file_name();
-        let capture = pattern.captures(
-            file_name
-                .to_str()
-                .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?,
-        );
+        // A file whose name is no text is no plugin.
+        let capture = file_name.to_str().and_then(|name| pattern.captures(name));
         if let Some(capture) = capture {
             let module_name = capture.name("module_name").unwrap().as_str();
             let plugin = (path, FeatureFlag::default());
-- 
2.43.0

