From 7bf95312fafeced0ace703657ee48a49f4f2b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 01/16] fix: drop an expired key from the list of expiring keys
 when it is removed

check_and_expire removed the entry but left its key in expiring_keys, so a
later background pass failed with KeyError and invalidate_key_index could
panic on the stale key.
---
 server/src/storage/hashmap_storage.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index 70a1375..51ffc90 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -256,9 +256,12 @@ impl Storage for HashMapStorage {
             None => return Err(ServerError::KeyError(format!("Key {} not found.", key))),
         };
         if item.element.is_expired() {
-            match self.storage.remove(key) {
-                _ => Ok(true),
+            if let Some(container) = self.storage.remove(key) {
+                if let Some(index) = container.key_index {
+                    self.invalidate_key_index(index);
+                }
             }
+            Ok(true)
         } else {
             Ok(false)
         }
-- 
2.43.0


From f3460481078a0615510f262b3d409ec5f81d69fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 02/16] fix: let try_set replace an entry that has expired

Every other operation treats an expired entry as absent, but
set_if_not_exists refused to write while the entry had not been collected.
---
 server/src/storage/hashmap_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/storage/hashmap_storage.rs b/server/src/storage/hashmap_storage.rs
index 51ffc90..902e0ec 100644
--- a/server/src/storage/hashmap_storage.rs
+++ b/server/src/storage/hashmap_storage.rs
@@ -180,7 +180,7 @@ impl Storage for HashMapStorage {
     fn set_if_not_exists(
         &mut self, key: &str, value: StorageElement
     ) -> Result<bool, ServerError> {
-        if self.storage.contains_key(key) {
+        if self.contains_key(key)? {
             Ok(false)
         } else {
             match self.set(key, value) {
-- 
2.43.0


From 05e90e26caad029d167306c2cbf944ec83d5da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 03/16] fix: reject a lifetime too large to represent instead
 of panicking

SystemTime + Duration panics on overflow, so 'set x 1 9223372036854775807'
killed the executor.
---
 server/src/analysis/interpreter.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/server/src/analysis/interpreter.rs b/server/src/analysis/interpreter.rs
index 3e22f20..6e74d7b 100644
--- a/server/src/analysis/interpreter.rs
+++ b/server/src/analysis/interpreter.rs
@@ -227,7 +227,7 @@ impl<S: Storage + Send> Interpreter<S> {
     ) -> Result<InterpreterResponse, ServerError> {
         let expiration = match expiration {
             None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
+            Some(time) => Some(get_expiration_time(time)?),
         };
         let element = StorageElement{key: key.to_string(), value, expiration};
         self.storage.set(key, element)?;
@@ -240,7 +240,7 @@ impl<S: Storage + Send> Interpreter<S> {
     ) -> Result<InterpreterResponse, ServerError> {
         let expiration = match expiration {
             None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
+            Some(time) => Some(get_expiration_time(time)?),
         };
         let element = StorageElement{key: key.to_string(), value, expiration};
         let result = self.storage.set_if_not_exists(key, element)?;
@@ -253,7 +253,7 @@ impl<S: Storage + Send> Interpreter<S> {
     ) -> Result<InterpreterResponse, ServerError> {
         let expiration = match expiration {
             None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
+            Some(time) => Some(get_expiration_time(time)?),
         };
         let element = StorageElement{key: key.to_string(), value, expiration};
         self.storage.update(key, element)?;
@@ -266,7 +266,7 @@ impl<S: Storage + Send> Interpreter<S> {
     ) -> Result<InterpreterResponse, ServerError> {
         let expiration = match expiration {
             None => None,
-            Some(time) => Some(SystemTime::now() + Duration::from_secs(time)),
+            Some(time) => Some(get_expiration_time(time)?),
         };
         self.storage.update_expiration(key, expiration)?;
         Ok(InterpreterResponse::Message("Ok".to_string()))
@@ -406,6 +406,15 @@ impl<S: Storage + Send> Interpreter<S> {
 }
 
 
+/// Convert a lifetime in seconds to an expiration time, or an error if it cannot be represented.
+fn get_expiration_time(lifetime: u64) -> Result<SystemTime, ServerError> {
+    match SystemTime::now().checked_add(Duration::from_secs(lifetime)) {
+        Some(expiration) => Ok(expiration),
+        None => Err(ServerError::RequestError(format!("Lifetime {} is too large.", lifetime))),
+    }
+}
+
+
 /// Validate that a statement is available at the given authorization level.
 fn validate_authorization(
     statements: &Vec<Statement>, authorization: AuthorizationLevel
-- 
2.43.0


From a1ddf7380dc5442e71481b35364679e356834163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 04/16] fix: accept whitespace at the end of a query

Skipping whitespace ran past the end of the query and panicked.
---
 server/src/analysis/tokenizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index ea50b7e..c9810d1 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -57,9 +57,6 @@ impl Tokenizer {
 
     /// Retrieve the next token
     fn get_next_token(&mut self) -> Result<Token, ServerError> {
-        while self.view().is_whitespace() {
-            self.advance();
-        }
         self.token_start_index = self.current_index;
         let next_char = self.view();
         
@@ -236,6 +233,9 @@ impl Tokenizer {
 impl Iterator for Tokenizer {
     type Item = Result<AnnotatedToken, ServerError>;
     fn next(&mut self) -> Option<Self::Item> {
+        while !self.is_at_end() && self.view().is_whitespace() {
+            self.advance();
+        }
         if self.is_at_end() | self.error_detected {
             return None
         }
-- 
2.43.0


From 0790d339ab26295a0347adf19276ba78fb354ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 05/16] fix: accept a string literal at the end of a query

Looking at the character after the closing quote panicked when there is none.
---
 server/src/analysis/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index c9810d1..1986bea 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -188,7 +188,7 @@ impl Tokenizer {
                 char_vec.push(next_char);
             }
         }
-        if !is_valid_literal_end_char(self.view()) {
+        if !self.is_at_end() && !is_valid_literal_end_char(self.view()) {
             return Err(
                 ServerError::TokenizationError(
                     "Invalid character found at the end of a string.".to_string()
-- 
2.43.0


From f387437f154fcd781ab213a351056723fb295652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 06/16] fix: keep the case of string literals

The whole query was lowercased to make keywords and identifiers case
insensitive, which also changed the strings being stored.
---
 server/src/analysis/tokenizer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/server/src/analysis/tokenizer.rs b/server/src/analysis/tokenizer.rs
index 1986bea..74a4ff6 100644
--- a/server/src/analysis/tokenizer.rs
+++ b/server/src/analysis/tokenizer.rs
@@ -31,7 +31,6 @@ pub struct Tokenizer {
 impl Tokenizer {
     /// Build a new tokenizer
     pub fn new(command: &str) -> Tokenizer {
-        let command = command.to_lowercase();
         let command = Vec::from_iter(command.chars());
         Tokenizer {
             command,
@@ -221,7 +220,7 @@ impl Tokenizer {
             }
 
         }
-        let token_string: String = char_vec.into_iter().collect();
+        let token_string = char_vec.into_iter().collect::<String>().to_lowercase();
         let token = match get_word_to_token_map().get(&token_string) {
             Some(keyword_token) => keyword_token.clone(),
             None => Token::Identifier(Box::new(token_string)),
-- 
2.43.0


From f53a2781907b988f5d2cee967c8dadb9f835f522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 07/16] fix: reject a truncated statement instead of panicking

'get', 'set x int int', 'set x int [' and 'set x int int {1:2' indexed past
the last token.
---
 server/src/analysis/parser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index afb409a..2ebb87d 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -116,6 +116,9 @@ impl Parser {
     fn process_identifier_statement<F>(&mut self, f: F) -> Result<Statement, ServerError>
     where F: Fn(&String) -> Statement
     {
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Expected an identifier instead of the end of the query.".to_string()));
+        }
         let next_token = self.advance();
         
         match &next_token.token {
@@ -375,7 +378,7 @@ impl Parser {
             self.advance();
             let key_type = get_key_type(&type_token.token)?;
             let collection_type = get_collection_type(&next_token.token)?;
-            let map = if self.is_at_statement_end() | (self.view().token != Token::LeftCurlyBracket) {
+            let map = if self.is_at_statement_end() || (self.view().token != Token::LeftCurlyBracket) {
                 StorageValue::Map(StorageMap::new(key_type, collection_type))
             } else {
                 self.get_map_value(key_type, collection_type)?
@@ -433,6 +436,9 @@ impl Parser {
         let mut value = StorageVector::new(collection_type);
         // We've already checked that the first character is a left bracket
         self.advance(); // [
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Unfinished vector literal found.".to_string()))
+        }
         if let Token::RightBracket = self.view().token {
             return Ok(StorageValue::Vector(value));
         }
@@ -459,6 +465,9 @@ impl Parser {
         let mut value = StorageMap::new(key_type, collection_type);
         // We've already checked that the first character is a left bracket
         self.advance(); // [
+        if self.is_at_end() {
+            return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
+        }
         if let Token::RightCurlyBracket = self.view().token {
             return Ok(StorageValue::Map(value));
         }
@@ -476,6 +485,9 @@ impl Parser {
             if let Err(_) = value.set(element_key, element_value) {
                 return Err(ServerError::ParseError("Could not add element to map.".to_string()));
             }
+            if self.is_at_end() {
+                return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
+            }
             if let Token::RightCurlyBracket = self.view().token {
                 break;
             } else if let Token::Comma = self.view().token {
-- 
2.43.0


From 1cdd2302f883a463531a97b9afe51d5034afafde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 08/16] fix: accept empty vector and map literals

The closing bracket was not consumed and was then rejected as a lifetime.
---
 server/src/analysis/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/src/analysis/parser.rs b/server/src/analysis/parser.rs
index 2ebb87d..1c4817c 100644
--- a/server/src/analysis/parser.rs
+++ b/server/src/analysis/parser.rs
@@ -440,6 +440,7 @@ impl Parser {
             return Err(ServerError::ParseError("Unfinished vector literal found.".to_string()))
         }
         if let Token::RightBracket = self.view().token {
+            self.advance(); // ]
             return Ok(StorageValue::Vector(value));
         }
 
@@ -469,6 +470,7 @@ impl Parser {
             return Err(ServerError::ParseError("Unfinished map literal found.".to_string()));
         }
         if let Token::RightCurlyBracket = self.view().token {
+            self.advance(); // }
             return Ok(StorageValue::Map(value));
         }
 
-- 
2.43.0


From 70c3c022f5ccfcca7c6e1f3c422d588ed4e3ee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 09/16] fix: shut down the single threaded server only for an
 executed shutdown

Any request containing a shutdown statement stopped the server, even one
rejected because the user may not shut it down.
---
 server/src/single_threaded.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/server/src/single_threaded.rs b/server/src/single_threaded.rs
index 61a0f50..442d78e 100644
--- a/server/src/single_threaded.rs
+++ b/server/src/single_threaded.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use crate::auth::{AuthenticationResult, AuthenticationService, MockAuthenticator};
 use crate::error::ServerError;
 use crate::io::stream::{StreamHandler, StreamRequest};
-use crate::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Statement, Tokenizer};
+use crate::analysis::{Interpreter, InterpreterRequest, InterpreterResponse, Parser, Tokenizer};
 use crate::storage::hashmap_storage::HashMapStorage;
 use crate::storage::Storage;
 
@@ -84,15 +84,9 @@ impl<Auth: AuthenticationService, Stor: Storage + Send> SingleThreadedServer<Aut
             return (Err(error), false)
         }
         let statements = statements.unwrap();
-        let mut shut_down = false;
-        for statement in statements.iter() {
-            if let Statement::Shutdown = statement {
-                shut_down = true;
-                break;
-            }
-        }
         let int_request = InterpreterRequest{statements, authorization};
         let result = self.interpreter.interpret(int_request);
+        let shut_down = matches!(result, Ok(InterpreterResponse::ShuttingDown));
         (result, shut_down)
     }
 }
-- 
2.43.0


From 6ad0f9a0c9b13ee4ca456d0852148e0e2a942cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 10/16] fix: serialize map values instead of panicking

Map keys are enum values, which serde_json rejects as object keys, so
returning any non-empty map panicked while the response was being built.
---
 server/src/storage/types.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/server/src/storage/types.rs b/server/src/storage/types.rs
index 2196c63..d53030c 100644
--- a/server/src/storage/types.rs
+++ b/server/src/storage/types.rs
@@ -237,11 +237,31 @@ impl StorageVector {
 }
 
 
+/// Represent the entries of a map as a list of pairs, since JSON object keys can only be strings.
+mod map_entries {
+    use super::{HashMap, StorageValue};
+    use serde::{Deserialize, Deserializer, Serializer};
+
+    pub fn serialize<S: Serializer>(
+        map: &HashMap<StorageValue, StorageValue>, serializer: S
+    ) -> Result<S::Ok, S::Error> {
+        serializer.collect_seq(map.iter())
+    }
+
+    pub fn deserialize<'de, D: Deserializer<'de>>(
+        deserializer: D
+    ) -> Result<HashMap<StorageValue, StorageValue>, D::Error> {
+        let entries: Vec<(StorageValue, StorageValue)> = Deserialize::deserialize(deserializer)?;
+        Ok(entries.into_iter().collect())
+    }
+}
+
 
 /// A map object that can be saved in the key value store
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct StorageMap {
     /// The raw map to be accessed
+    #[serde(with = "map_entries")]
     map: HashMap<StorageValue, StorageValue>,
     /// The type of key to be used
     pub key_type: KeyType,
-- 
2.43.0


From 4cb9ff6675e5b6148a9970f63797f2d315b66c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 11/16] fix: write the whole response

A single write may send only part of a large response.
---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 8696881..29f3e29 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -50,7 +50,7 @@ impl StreamSender for TcpStreamSender {
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
 
-        if let Err(_) = self.stream.write(http_bytes) {
+        if let Err(_) = self.stream.write_all(http_bytes) {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush() {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 69c19bd..5b9604b 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -61,7 +61,7 @@ impl TcpStreamSender {
 
         let http_response = make_response(&code, &json_payload);
         let http_bytes = http_response.as_bytes();
-        if let Err(_) = self.stream.write(http_bytes).await {
+        if let Err(_) = self.stream.write_all(http_bytes).await {
             return Err(ServerError::NetworkError("Error writing to stream.".to_string()));
         };
         if let Err(_) = self.stream.flush().await {
-- 
2.43.0


From 181b4318bd2186d4a4d9f95568edb81c7f730c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 12/16] fix: match the Content-Length header in any case

HTTP header names are case insensitive; a lower case name left the server
waiting for ever.
---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 29f3e29..3695796 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -65,7 +65,7 @@ impl StreamSender for TcpStreamSender {
 fn extract_body_length_from_request(request: &Request) -> Result<Option<usize>, ServerError> {
     let mut length: Option<usize> = None;
     for header in request.headers.iter() {
-        if header.name == "Content-Length" {
+        if header.name.eq_ignore_ascii_case("Content-Length") {
             let length_str = match String::from_utf8(header.value.clone().to_vec()) {
                 Ok(utf_str) => utf_str,
                 Err(_) => return Err(ServerError::RequestError("Malformed request.".to_string())),
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 5b9604b..22af2bb 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -76,7 +76,7 @@ impl TcpStreamSender {
 fn extract_body_length_from_request(request: &Request) -> Result<Option<usize>, ServerError> {
     let mut length: Option<usize> = None;
     for header in request.headers.iter() {
-        if header.name == "Content-Length" {
+        if header.name.eq_ignore_ascii_case("Content-Length") {
             let length_str = match String::from_utf8(header.value.clone().to_vec()) {
                 Ok(utf_str) => utf_str,
                 Err(_) => return Err(ServerError::RequestError("Malformed request.".to_string())),
-- 
2.43.0


From 500365c6551699a9ed673acd6d20a76f52a20dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 13/16] fix: stop reading a request when the client closes the
 connection

A read of zero bytes was retried for ever when the body was incomplete.
---
 server/src/io/tcp.rs       | 7 +++++++
 server/src/io/tcp_async.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 3695796..50c5ed2 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -126,6 +126,13 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 };
             },
         };
+        if size_read == 0 {
+            return StreamRequest {
+                request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
+                headers,
+                sender: Some(Box::new(TcpStreamSender{stream})),
+            };
+        }
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 22af2bb..b830209 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -137,6 +137,13 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
                 };
             },
         };
+        if size_read == 0 {
+            return StreamRequest {
+                request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
+                headers,
+                sender: Some(TcpStreamSender{stream}),
+            };
+        }
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
-- 
2.43.0


From a2922a910a9455ae33b4b9d0c9bf8aca2e0a07b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 14/16] fix: keep reading when the request headers arrive in
 several pieces

Headers longer than one read, or split by the network, were rejected.
---
 server/src/io/tcp.rs       | 1 +
 server/src/io/tcp_async.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index 50c5ed2..f5c0a16 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -136,6 +136,7 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
+            Ok(Status::Partial) => continue,
             _ => return StreamRequest {
                 request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
                 headers,
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index b830209..737b49b 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -147,6 +147,7 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
         buffer.extend(&temp_buffer[..size_read]);
         let body_start = match request.parse(&buffer) {
             Ok(Status::Complete(size)) => size,
+            Ok(Status::Partial) => continue,
             _ => return StreamRequest {
                 request: Err(ServerError::NetworkError("Problem reading request.".to_string())),
                 headers,
-- 
2.43.0


From cd0e5a5b00e0d45b9294757c49bccf4deaaff108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 15/16] fix: reject a request without a Content-Length header

Once the headers are complete the length cannot arrive any more; the server
waited for ever for it.
---
 server/src/io/tcp.rs       | 6 +++++-
 server/src/io/tcp_async.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index f5c0a16..cccfd4f 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -154,7 +154,11 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             },
         };
         let body_length = match body_length {
-            None => continue,
+            None => return StreamRequest {
+                request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                headers,
+                sender: Some(Box::new(TcpStreamSender{stream})),
+            },
             Some(body_length) => body_length,
         };
         if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 737b49b..1fd9f77 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -165,7 +165,11 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             },
         };
         let body_length = match body_length {
-            None => continue,
+            None => return StreamRequest {
+                request: Err(ServerError::RequestError("Malformed request.".to_string())),
+                headers,
+                sender: Some(TcpStreamSender{stream}),
+            },
             Some(body_length) => body_length,
         };
         if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
-- 
2.43.0


From 51cbbe0487369ce1296631ae41e2d1f60ebfa6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 16/16] fix: do not overflow on a huge Content-Length

The sum of the body start and length overflowed and panicked.
---
 server/src/io/tcp.rs       | 2 +-
 server/src/io/tcp_async.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/io/tcp.rs b/server/src/io/tcp.rs
index cccfd4f..3cb7593 100644
--- a/server/src/io/tcp.rs
+++ b/server/src/io/tcp.rs
@@ -161,7 +161,7 @@ fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             },
             Some(body_length) => body_length,
         };
-        if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
+        if body_length <= buffer.len() - body_start {
             match request.method {
                 Some("POST") => (),
                 _ => return StreamRequest {
diff --git a/server/src/io/tcp_async.rs b/server/src/io/tcp_async.rs
index 1fd9f77..4331a4e 100644
--- a/server/src/io/tcp_async.rs
+++ b/server/src/io/tcp_async.rs
@@ -172,7 +172,7 @@ async fn convert_stream_to_request(mut stream: TcpStream) -> StreamRequest {
             },
             Some(body_length) => body_length,
         };
-        if (body_start as u64 + body_length as u64) as usize <= buffer.len() {
+        if body_length <= buffer.len() - body_start {
             match request.method {
                 Some("POST") => (),
                 _ => return StreamRequest {
-- 
2.43.0

