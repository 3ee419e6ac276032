From b0e462175373712f640c4741c642b0d87ede5360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:21 +0000
Subject: [PATCH 01/14] fix: keep path segment boundaries in the route trie

---
 src/router/route_trie.rs | 53 ++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index a028bca..91f027e 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -61,7 +61,7 @@ pub struct RouteTrie {
 impl RouteTrie {
     pub fn new() -> Self {
         RouteTrie {
-            head: Node::new("/".to_string(), None),
+            head: Node::new("/".to_string(), true, None),
         }
     }
 
@@ -105,7 +105,7 @@ impl RouteTrie {
         }
 
         while let Some(k) = split_key.next() {
-            match curr_node.process_insertion(k) {
+            match curr_node.process_insertion(k, true) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
                         match &mut next_node.value {
@@ -163,7 +163,7 @@ impl RouteTrie {
         let mut curr_node = &mut self.head;
 
         while let Some(k) = split_key.next() {
-            match curr_node.process_insertion(k) {
+            match curr_node.process_insertion(k, true) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
                         match &mut next_node.value {
@@ -258,15 +258,18 @@ impl RouteTrie {
         }
 
         while let Some(k) = split_key.next() {
-            match curr_node.process_insertion(k) {
+            match curr_node.process_insertion(k, true) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
-                        if next_node.value.is_some() || !next_node.child_nodes.is_empty() {
+                        // Children continuing the segment belong to other routes, e.g. '/test' and '/testing'
+                        if next_node.value.is_some()
+                            || next_node.child_nodes.iter().any(|x| x.starts_segment)
+                        {
                             panic!("There is conflict between main router and sub router at '{}'. Make sure main router does not consist any routing data in '{}'.", path, path);
                         }
 
                         next_node.value = src.head.value;
-                        next_node.child_nodes = src.head.child_nodes;
+                        next_node.child_nodes.extend(src.head.child_nodes);
                         break;
                     }
                     curr_node = next_node;
@@ -306,30 +309,37 @@ impl RouteTrie {
 #[derive(Clone, Debug)]
 struct Node {
     key: String,
+    /// Whether the key starts a path segment or continues the segment of its parent
+    starts_segment: bool,
     value: Option<RouteValue>,
     child_nodes: Vec<Node>,
 }
 
 impl Node {
-    fn new(key: String, value: Option<RouteValue>) -> Self {
+    fn new(key: String, starts_segment: bool, value: Option<RouteValue>) -> Self {
         Node {
             key,
+            starts_segment,
             value,
             child_nodes: Vec::default(),
         }
     }
 
     fn is_param(&self) -> bool {
-        self.key.chars().next().unwrap_or(' ') == ':'
+        self.starts_segment && self.key.chars().next().unwrap_or(' ') == ':'
     }
 
     /// Process the side effects of node insertion
-    fn process_insertion(&mut self, key: &str) -> Result<&mut Self, ObsidianError> {
-        let action = self.get_insertion_action(key);
+    fn process_insertion(
+        &mut self,
+        key: &str,
+        starts_segment: bool,
+    ) -> Result<&mut Self, ObsidianError> {
+        let action = self.get_insertion_action(key, starts_segment);
 
         match action.name {
             ActionName::CreateNewNode => {
-                let new_node = Self::new(key.to_string(), None);
+                let new_node = Self::new(key.to_string(), starts_segment, None);
 
                 match key {
                     k if k == "*" => {
@@ -355,7 +365,7 @@ impl Node {
             }
             ActionName::SplitKey => {
                 if let Some(node) = self.child_nodes.get_mut(action.payload.node_index) {
-                    return node.process_insertion(&key[action.payload.match_count..]);
+                    return node.process_insertion(&key[action.payload.match_count..], false);
                 };
             }
             ActionName::SplitNode => {
@@ -365,7 +375,7 @@ impl Node {
                     let new_key = key[count..].to_string();
                     node.key = key[..count].to_string();
 
-                    let mut inter_node = Self::new(child_key, None);
+                    let mut inter_node = Self::new(child_key, false, None);
 
                     // Move out the previous child and transfer to intermediate node
                     inter_node.child_nodes = std::mem::take(&mut node.child_nodes);
@@ -378,7 +388,7 @@ impl Node {
                         return Ok(node);
                     }
 
-                    let new_node = Self::new(new_key, None);
+                    let new_node = Self::new(new_key, false, None);
 
                     node.child_nodes.insert(0, new_node);
                     if let Some(result_node) = node.child_nodes.first_mut() {
@@ -400,9 +410,15 @@ impl Node {
     }
 
     /// Determine the action required to be performed for the new route path
-    fn get_insertion_action(&self, key: &str) -> Action {
+    fn get_insertion_action(&self, key: &str, starts_segment: bool) -> Action {
         for (index, node) in self.child_nodes.iter().enumerate() {
-            let is_param = node.is_param() || key.chars().next().unwrap_or(' ') == ':';
+            // A new segment never shares nodes with the continuation of the current one
+            if node.starts_segment != starts_segment {
+                continue;
+            }
+
+            let is_param =
+                node.is_param() || (starts_segment && key.chars().next().unwrap_or(' ') == ':');
             if is_param {
                 // Only allow one param leaf in one children series
                 if key == node.key {
@@ -458,6 +474,11 @@ impl Node {
         let curr_key = key.remove(0);
 
         for node in self.child_nodes.iter() {
+            // The rest of a segment only matches continuation, a new segment only matches segment start
+            if node.starts_segment == is_break_parent {
+                continue;
+            }
+
             let mut break_key = false;
 
             if !is_break_parent {
-- 
2.43.0


From ad1d21bf65615b393dc82129234840cbe2648f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:24 +0000
Subject: [PATCH 02/14] fix: run middlewares from the outermost path to the
 innermost

---
 src/router/route_trie.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 91f027e..30b015b 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -472,6 +472,8 @@ impl Node {
         is_break_parent: bool,
     ) -> Option<&Self> {
         let curr_key = key.remove(0);
+        // Outer middlewares are placed before the ones collected from the inner nodes
+        let start = middlewares.len();
 
         for node in self.child_nodes.iter() {
             // The rest of a segment only matches continuation, a new segment only matches segment start
@@ -502,7 +504,8 @@ impl Node {
 
                                 match &node.value {
                                     Some(curr_val) => {
-                                        middlewares.append(&mut curr_val.middlewares.clone());
+                                        middlewares
+                                            .splice(start..start, curr_val.middlewares.clone());
                                     }
                                     None => {}
                                 }
@@ -576,7 +579,7 @@ impl Node {
                     node.get_next_node(key, params, middlewares, break_key)
                 {
                     if let Some(curr_val) = &node.value {
-                        middlewares.append(&mut curr_val.middlewares.clone());
+                        middlewares.splice(start..start, curr_val.middlewares.clone());
                     }
 
                     return Some(final_val);
-- 
2.43.0


From d33a51062b5f8015bf13c4baf37ec0e46e65fb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:45 +0000
Subject: [PATCH 03/14] fix: register the middleware of use_service_to on the
 root path

---
 src/router/route_trie.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 30b015b..49f0cc3 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -160,6 +160,12 @@ impl RouteTrie {
             }
         });
 
+        // if the path is "/"
+        if split_key.peek().is_none() {
+            self.insert_default_middleware(middleware);
+            return;
+        }
+
         let mut curr_node = &mut self.head;
 
         while let Some(k) = split_key.next() {
-- 
2.43.0


From 2c3af8cba94cb61eeb12911526f93083208a081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:47 +0000
Subject: [PATCH 04/14] fix: keep the main router when a router is used at the
 root path

---
 src/router/resource.rs   |  4 ++++
 src/router/route_trie.rs | 18 +++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/router/resource.rs b/src/router/resource.rs
index 808c93b..b99e7a8 100644
--- a/src/router/resource.rs
+++ b/src/router/resource.rs
@@ -23,6 +23,10 @@ impl Resource {
         self.route_map.insert(method, route)
     }
 
+    pub fn is_empty(&self) -> bool {
+        self.route_map.is_empty()
+    }
+
     pub fn get_route(&self, method: &Method) -> Option<&Route> {
         self.route_map.get(&method)
     }
diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 49f0cc3..1cb40b0 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -259,7 +259,23 @@ impl RouteTrie {
         let mut curr_node = &mut des.head;
 
         if split_key.peek().is_none() {
-            des.head = src.head;
+            let has_route = match &des.head.value {
+                Some(val) => !val.route.is_empty(),
+                None => false,
+            };
+
+            if has_route || !des.head.child_nodes.is_empty() {
+                panic!("There is conflict between main router and sub router at '{}'. Make sure main router does not consist any routing data in '{}'.", path, path);
+            }
+
+            // Middlewares of the main router stay in front of the ones of the sub router
+            let mut src_head = src.head;
+            if let Some(val) = des.head.value.take() {
+                let src_value = src_head.value.get_or_insert_with(RouteValue::default);
+                src_value.middlewares.splice(0..0, val.middlewares);
+            }
+
+            des.head = src_head;
             return;
         }
 
-- 
2.43.0


From d7815912d71d7a280440e0933e1528e88ce9b20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:38 +0000
Subject: [PATCH 05/14] fix: do not let a path with middlewares only hide a
 matching route

---
 src/router/route_trie.rs | 49 ++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 1cb40b0..5905f8a 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -199,7 +199,7 @@ impl RouteTrie {
     pub fn search_route(&self, path: &str) -> Option<RouteValueResult> {
         // Split key and drop additional '/'
         let split_key = path.split('/');
-        let mut split_key = split_key
+        let split_key = split_key
             .filter(|key| !key.is_empty())
             .collect::<Vec<&str>>();
 
@@ -215,7 +215,18 @@ impl RouteTrie {
         }
 
         if !split_key.is_empty() {
-            match curr_node.get_next_node(&mut split_key, &mut params, &mut middlewares, false) {
+            // A node with middlewares only must not hide a route which matches the path as well
+            let node = [true, false].iter().find_map(|requires_route| {
+                curr_node.get_next_node(
+                    &mut split_key.clone(),
+                    &mut params,
+                    &mut middlewares,
+                    false,
+                    *requires_route,
+                )
+            });
+
+            match node {
                 Some(handler_node) => {
                     curr_node = handler_node;
                 }
@@ -351,6 +362,13 @@ impl Node {
         self.starts_segment && self.key.chars().next().unwrap_or(' ') == ':'
     }
 
+    /// Value of the node if the search can end at the node
+    fn get_target(&self, requires_route: bool) -> Option<&RouteValue> {
+        self.value
+            .as_ref()
+            .filter(|val| !requires_route || !val.route.is_empty())
+    }
+
     /// Process the side effects of node insertion
     fn process_insertion(
         &mut self,
@@ -492,6 +510,7 @@ impl Node {
         params: &mut HashMap<String, String>,
         middlewares: &mut Vec<std::sync::Arc<(dyn Middleware + 'static)>>,
         is_break_parent: bool,
+        requires_route: bool,
     ) -> Option<&Self> {
         let curr_key = key.remove(0);
         // Outer middlewares are placed before the ones collected from the inner nodes
@@ -509,7 +528,7 @@ impl Node {
                 // Check param
                 if node.is_param() {
                     if key.is_empty() {
-                        match &node.value {
+                        match node.get_target(requires_route) {
                             Some(curr_val) => {
                                 params.insert(node.key[1..].to_string(), curr_key.to_string());
                                 middlewares.append(&mut curr_val.middlewares.clone());
@@ -520,7 +539,13 @@ impl Node {
                             }
                         }
                     } else {
-                        match node.get_next_node(key, params, middlewares, break_key) {
+                        match node.get_next_node(
+                            key,
+                            params,
+                            middlewares,
+                            break_key,
+                            requires_route,
+                        ) {
                             Some(final_val) => {
                                 params.insert(node.key[1..].to_string(), curr_key.to_string());
 
@@ -543,11 +568,13 @@ impl Node {
 
                 // Check wildcard
                 if node.key == "*" {
-                    match &node.value {
+                    match node.get_target(requires_route) {
                         Some(curr_val) => {
                             middlewares.append(&mut curr_val.middlewares.clone());
                         }
-                        None => {}
+                        None => {
+                            continue;
+                        }
                     }
 
                     return Some(node);
@@ -579,7 +606,7 @@ impl Node {
 
             if count != 0 && count == node.key.len() {
                 if key.is_empty() {
-                    match &node.value {
+                    match node.get_target(requires_route) {
                         Some(curr_val) => {
                             middlewares.append(&mut curr_val.middlewares.clone());
                             return Some(node);
@@ -587,7 +614,11 @@ impl Node {
                         None => {
                             for child in node.child_nodes.iter() {
                                 if child.key == "*" {
-                                    if let Some(child_val) = &child.value {
+                                    if let Some(child_val) = child.get_target(requires_route) {
+                                        if let Some(curr_val) = &node.value {
+                                            middlewares.append(&mut curr_val.middlewares.clone());
+                                        }
+
                                         middlewares.append(&mut child_val.middlewares.clone());
                                         return Some(child);
                                     }
@@ -598,7 +629,7 @@ impl Node {
                         }
                     }
                 } else if let Some(final_val) =
-                    node.get_next_node(key, params, middlewares, break_key)
+                    node.get_next_node(key, params, middlewares, break_key, requires_route)
                 {
                     if let Some(curr_val) = &node.value {
                         middlewares.splice(start..start, curr_val.middlewares.clone());
-- 
2.43.0


From 55b8c7bd76ec09f92f08e65582f9d81686c04a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:17 +0000
Subject: [PATCH 06/14] fix: read all chunks of the body in form and json

---
 src/context.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 1166c71..28a79a8 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,5 +1,5 @@
 use http::Extensions;
-use hyper::{body, body::Buf};
+use hyper::body;
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use url::form_urlencoded;
@@ -176,14 +176,15 @@ impl Context {
     pub async fn form<T: DeserializeOwned>(&mut self) -> Result<T, ObsidianError> {
         let body = self.take_body();
 
-        let buf = match body::aggregate(body).await {
+        // The body may arrive in any number of chunks
+        let buf = match body::to_bytes(body).await {
             Ok(buf) => buf,
             _ => {
                 return Err(ObsidianError::NoneError);
             }
         };
 
-        Self::parse_queries(buf.chunk())
+        Self::parse_queries(&buf)
     }
 
     /// Form value merge with Params
@@ -241,14 +242,15 @@ impl Context {
     pub async fn json<T: DeserializeOwned>(&mut self) -> Result<T, ObsidianError> {
         let body = self.take_body();
 
-        let buf = match body::aggregate(body).await {
+        // The body may arrive in any number of chunks
+        let buf = match body::to_bytes(body).await {
             Ok(buf) => buf,
             _ => {
                 return Err(ObsidianError::NoneError);
             }
         };
 
-        Ok(serde_json::from_slice(buf.chunk())?)
+        Ok(serde_json::from_slice(&buf)?)
     }
 
     /// Json value merged with Params
-- 
2.43.0


From 2509a14edc5a126e1cb2e49d59c2076cb6f3420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:20 +0000
Subject: [PATCH 07/14] fix: do not serve files outside of the static directory

---
 src/router.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index 8eff03d..35fa7b2 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -10,7 +10,7 @@ mod route_trie;
 use self::route_trie::RouteTrie;
 use crate::context::Context;
 use crate::middleware::Middleware;
-use crate::Method;
+use crate::{Method, StatusCode};
 pub use hyper::header;
 
 pub use self::handler::{ContextResult, Handler};
@@ -135,9 +135,15 @@ impl Router {
                 .map(|x| x.to_string())
                 .collect::<Vec<String>>();
 
+            let is_contained = Self::is_contained(&relative_path);
+
             dir_path.append(&mut relative_path);
 
             Box::pin(async move {
+                if !is_contained {
+                    return ctx.build(StatusCode::NOT_FOUND).ok();
+                }
+
                 ctx.build(Response::ok().file(&dir_path.join("/")).await)
                     .ok()
             })
@@ -153,9 +159,18 @@ impl Router {
             .map(|x| x.to_string())
             .collect::<Vec<String>>();
 
+        if !Self::is_contained(&relative_path) {
+            return ctx.build(StatusCode::NOT_FOUND).ok();
+        }
+
         ctx.build(Response::ok().file(&relative_path.join("/")).await)
             .ok()
     }
+
+    /// Whether the relative path stays inside of the directory it is resolved in
+    fn is_contained(relative_path: &[String]) -> bool {
+        relative_path.iter().all(|key| key != "..")
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 19ab89b0062208b5284f2d3798c88cecbef4665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:22 +0000
Subject: [PATCH 08/14] fix: respond with an error instead of panicking on an
 invalid header value

---
 src/app.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index 2a8101a..dbd92d0 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -240,10 +240,16 @@ impl AppServer {
                         if let Some(response) = ctx.take_response() {
                             if let Some(headers) = response.headers() {
                                 if let Some(response_headers) = res.headers_mut() {
-                                    headers.iter().for_each(move |(key, value)| {
-                                        response_headers
-                                            .insert(key, header::HeaderValue::from_static(value));
-                                    });
+                                    for (key, value) in headers.iter() {
+                                        match header::HeaderValue::from_str(value) {
+                                            Ok(value) => {
+                                                response_headers.insert(key, value);
+                                            }
+                                            Err(err) => {
+                                                return Ok(internal_server_error(err));
+                                            }
+                                        }
+                                    }
                                 }
                             }
                             res.status(response.status()).body(response.body())
-- 
2.43.0


From 0c00d7ec1032b567c40280ccd2637257b077cca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:14 +0000
Subject: [PATCH 09/14] fix: deserialize form values of any length without
 panicking

---
 src/router/req_deserializer.rs | 47 ++++++++++++++++------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/router/req_deserializer.rs b/src/router/req_deserializer.rs
index af23374..524eb46 100644
--- a/src/router/req_deserializer.rs
+++ b/src/router/req_deserializer.rs
@@ -188,7 +188,7 @@ macro_rules! from_string_forms_impl {
             fn $method<V>(self, visitor: V) -> Result<V::Value, Self::Error>
                 where V: de::Visitor<'de>
             {
-                match self.input[0].parse::<$t>() {
+                match self.first()?.parse::<$t>() {
                     Ok(result) => result.into_deserializer().$method(visitor),
                     Err(e) => Err(Error::Message(format!("{}", e))),
                 }
@@ -205,6 +205,10 @@ impl<'de> FormValueDeserializer<'de> {
     pub fn new(input: &'de [std::string::String]) -> Self {
         FormValueDeserializer { input }
     }
+
+    fn first(&self) -> Result<&'de String, Error> {
+        self.input.first().ok_or(Error::NoneError)
+    }
 }
 
 impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
@@ -221,28 +225,28 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        visitor.visit_seq(FromSeq::new(self))
+        visitor.visit_seq(FromSeq::new(self.input))
     }
 
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
     {
-        visitor.visit_string(self.input[0].clone())
+        visitor.visit_string(self.first()?.clone())
     }
 
     fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
     {
-        visitor.visit_str(&self.input[0])
+        visitor.visit_str(self.first()?)
     }
 
     fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
     {
-        match self.input[0].chars().next() {
+        match self.first()?.chars().next() {
             Some(val) => visitor.visit_char(val),
             _ => Err(Error::NoneError),
         }
@@ -252,8 +256,7 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        if self.input.starts_with(&[String::default()]) {
-            self.input = &self.input[1..];
+        if self.input.is_empty() || self.input.starts_with(&[String::default()]) {
             visitor.visit_none()
         } else {
             visitor.visit_some(self)
@@ -264,10 +267,6 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        if self.input.starts_with(&[String::default()]) {
-            self.input = &self.input[1..];
-        }
-
         visitor.visit_unit()
     }
 
@@ -328,35 +327,33 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     }
 }
 
-struct FromSeq<'a, 'de: 'a> {
-    de: &'a mut FormValueDeserializer<'de>,
-    first: bool,
+struct FromSeq<'de> {
+    input: &'de [std::string::String],
 }
 
-impl<'a, 'de> FromSeq<'a, 'de> {
-    fn new(de: &'a mut FormValueDeserializer<'de>) -> Self {
-        FromSeq { de, first: true }
+impl<'de> FromSeq<'de> {
+    fn new(input: &'de [std::string::String]) -> Self {
+        FromSeq { input }
     }
 }
 
-impl<'de, 'a> SeqAccess<'de> for FromSeq<'a, 'de> {
+impl<'de> SeqAccess<'de> for FromSeq<'de> {
     type Error = Error;
 
     fn next_element_seed<T>(&mut self, seed: T) -> Result<Option<T::Value>, Error>
     where
         T: DeserializeSeed<'de>,
     {
-        if self.de.input.len() == 1 && !self.first {
+        if self.input.is_empty() {
             return Ok(None);
         }
 
-        // Only start moving slices after processing
-        if !self.first {
-            self.de.input = &self.de.input[1..];
-        }
-        self.first = false;
+        // Each element is deserialized from its own value only
+        let (value, rest) = self.input.split_at(1);
+        self.input = rest;
 
-        seed.deserialize(&mut *self.de).map(Some)
+        seed.deserialize(&mut FormValueDeserializer::new(value))
+            .map(Some)
     }
 }
 
-- 
2.43.0


From 333e587aec87e1c1be7d78f0dc7322d27c9d7c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:45 +0000
Subject: [PATCH 10/14] verif: hand the service of App::listen to a driver
 under cfg(obsidian_verif)

---
 src/app.rs   |  5 +++++
 src/lib.rs   |  2 ++
 src/verif.rs | 51 +++++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 58 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/app.rs b/src/app.rs
index dbd92d0..5af9afa 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -159,6 +159,11 @@ where
             }
         });
 
+        #[cfg(obsidian_verif)]
+        if crate::verif::is_open() {
+            return crate::verif::drive(service).await;
+        }
+
         let addr = ([127, 0, 0, 1], port).into();
         let server = Server::bind(&addr).serve(service);
 
diff --git a/src/lib.rs b/src/lib.rs
index cd702ac..19b98b2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,6 +6,8 @@ pub mod error;
 pub mod context;
 pub mod middleware;
 pub mod router;
+#[cfg(obsidian_verif)]
+pub mod verif;
 
 pub use app::{App, EndpointExecutor};
 pub use error::ObsidianError;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..e42be80
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,51 @@
+//! Verification hook, compiled with `--cfg obsidian_verif` only: hands the service
+//! built by `App::listen` to a driver instead of binding a socket.
+use std::cell::RefCell;
+use std::future::Future;
+use std::mem::MaybeUninit;
+use std::pin::Pin;
+
+use hyper::server::conn::AddrStream;
+use hyper::service::Service;
+use hyper::{Body, Request, Response};
+
+pub type ResponseFuture = Pin<Box<dyn Future<Output = Result<Response<Body>, hyper::Error>>>>;
+/// One connection: every call is one request on it
+pub type Connection = Box<dyn FnMut(Request<Body>) -> ResponseFuture>;
+pub type Connections = Vec<Connection>;
+
+thread_local! {
+    static STATE: RefCell<(usize, Connections)> = RefCell::new((0, Vec::new()));
+}
+
+/// Number of connections the next `App::listen` opens
+pub fn open(count: usize) {
+    STATE.with(|s| *s.borrow_mut() = (count, Vec::new()));
+}
+
+pub(crate) fn is_open() -> bool {
+    STATE.with(|s| s.borrow().0 > 0)
+}
+
+/// Connections opened by the last `App::listen`
+pub fn take() -> Connections {
+    STATE.with(|s| std::mem::take(&mut s.borrow_mut().1))
+}
+
+pub(crate) async fn drive<M, S>(mut make: M)
+where
+    M: for<'a> Service<&'a AddrStream, Response = S>,
+    S: Service<Request<Body>, Response = Response<Body>, Error = hyper::Error> + 'static,
+    S::Future: 'static,
+{
+    let count = STATE.with(|s| s.borrow().0);
+    // The service of `App::listen` does not look at the stream
+    let stream = MaybeUninit::<AddrStream>::uninit();
+
+    for _ in 0..count {
+        if let Ok(mut service) = make.call(unsafe { &*stream.as_ptr() }).await {
+            let connection: Connection = Box::new(move |req| Box::pin(service.call(req)));
+            STATE.with(|s| s.borrow_mut().1.push(connection));
+        }
+    }
+}
-- 
2.43.0


From 29e81dbc969fa74ab05f82685c50ac607bdb1f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:15 +0000
Subject: [PATCH 11/14] fix: logger does not panic when the handler sets no
 response

---
 src/middleware/logger.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/middleware/logger.rs b/src/middleware/logger.rs
index 5a7537d..9461f86 100644
--- a/src/middleware/logger.rs
+++ b/src/middleware/logger.rs
@@ -5,6 +5,7 @@ use crate::app::EndpointExecutor;
 use crate::context::Context;
 use crate::middleware::Middleware;
 use crate::router::ContextResult;
+use crate::StatusCode;
 
 use colored::*;
 
@@ -33,11 +34,12 @@ impl Middleware for Logger {
         match ep_executor.next(context).await {
             Ok(context_after) => {
                 let duration = start.elapsed();
-                println!(
-                    "[info] Sent {} in {:?}",
-                    context_after.response().as_ref().unwrap().status(),
-                    duration
-                );
+                // The response is optional, the app answers with an empty one
+                let status = context_after
+                    .response()
+                    .as_ref()
+                    .map_or(StatusCode::OK, |response| response.status());
+                println!("[info] Sent {} in {:?}", status, duration);
                 Ok(context_after)
             }
             Err(error) => {
-- 
2.43.0


From 59cccd9cbab124a8fd6635129b8f5ae6d57a29cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:18 +0000
Subject: [PATCH 12/14] fix: static files are served whatever bytes they
 consist of

---
 src/router/response.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/router/response.rs b/src/router/response.rs
index 4c5ce92..13fb75a 100644
--- a/src/router/response.rs
+++ b/src/router/response.rs
@@ -129,9 +129,13 @@ impl Response {
         }
     }
 
-    pub async fn file(self, file_path: &str) -> Self {
-        match fs::read_to_string(file_path.to_string()).await {
-            Ok(content) => self.set_body(content),
+    pub async fn file(mut self, file_path: &str) -> Self {
+        // The content of a file is not necessarily text
+        match fs::read(file_path.to_string()).await {
+            Ok(content) => {
+                self.body = Body::from(content);
+                self
+            }
             Err(err) => {
                 dbg!(&err);
                 self.set_body(err.to_string())
-- 
2.43.0


From 113932f7cbe94b90c0e35ca351d13139fd2d82e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:25 +0000
Subject: [PATCH 13/14] fix: do not apply the middlewares of a path to the ones
 which only share its beginning

---
 src/router/route_trie.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 5905f8a..9c3f959 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -631,7 +631,8 @@ impl Node {
                 } else if let Some(final_val) =
                     node.get_next_node(key, params, middlewares, break_key, requires_route)
                 {
-                    if let Some(curr_val) = &node.value {
+                    // The node of '/test' is not on the path of '/testing'
+                    if let (false, Some(curr_val)) = (break_key, &node.value) {
                         middlewares.splice(start..start, curr_val.middlewares.clone());
                     }
 
-- 
2.43.0


From f1d4329647af197e90411c3c5801b6d0272b109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:58 +0000
Subject: [PATCH 14/14] fix: ignore an unknown form field without values

---
 src/router/req_deserializer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/router/req_deserializer.rs b/src/router/req_deserializer.rs
index 524eb46..f374d4b 100644
--- a/src/router/req_deserializer.rs
+++ b/src/router/req_deserializer.rs
@@ -288,6 +288,14 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
         visitor.visit_newtype_struct(self)
     }
 
+    fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Error>
+    where
+        V: Visitor<'de>,
+    {
+        // Nothing is read from a field which is not asked for
+        self.deserialize_unit(visitor)
+    }
+
     fn deserialize_tuple<V>(self, _len: usize, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
@@ -305,7 +313,6 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     forward_to_deserialize_any! {
         bytes
         byte_buf
-        ignored_any
         map
         struct
         tuple_struct
-- 
2.43.0

