From c41bf27de0dd59bb379a0c354ec5e98b44f8c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 001/122] hooks: re-export private items for runtime monitors
 under cfg(verif_hooks)

---
 src/core/auth/mod.rs        |  3 +++
 src/core/blueprint/mod.rs   |  5 +++++
 src/core/data_loader/mod.rs |  8 ++++++++
 src/core/generator/mod.rs   |  2 ++
 src/core/http/mod.rs        |  3 +++
 src/core/mod.rs             |  2 ++
 src/core/rest/mod.rs        |  8 ++++++++
 src/core/verif.rs           | 11 +++++++++++
 src/lib.rs                  |  1 +
 9 files changed, 43 insertions(+)
 create mode 100644 src/core/verif.rs

diff --git a/src/core/auth/mod.rs b/src/core/auth/mod.rs
index 0f0ec36..24f8c41 100644
--- a/src/core/auth/mod.rs
+++ b/src/core/auth/mod.rs
@@ -3,3 +3,6 @@ pub mod error;
 pub mod jwt;
 mod verification;
 pub mod verify;
+
+#[cfg(verif_hooks)]
+pub use verification::Verification;
diff --git a/src/core/blueprint/mod.rs b/src/core/blueprint/mod.rs
index 91bdc0f..e2fbda4 100644
--- a/src/core/blueprint/mod.rs
+++ b/src/core/blueprint/mod.rs
@@ -36,6 +36,11 @@ pub use schema::*;
 pub use server::*;
 pub use timeout::GlobalTimeout;
 pub use upstream::*;
+#[cfg(verif_hooks)]
+pub use {
+    directive::{to_const_directive, to_directive, Directive},
+    template_validation::validate_argument,
+};
 
 use crate::core::config::ConfigModule;
 use crate::core::try_fold::TryFold;
diff --git a/src/core/data_loader/mod.rs b/src/core/data_loader/mod.rs
index 56af74d..4ca1da6 100644
--- a/src/core/data_loader/mod.rs
+++ b/src/core/data_loader/mod.rs
@@ -10,3 +10,11 @@ pub use cache::LruCache;
 pub use data_loader::DataLoader;
 pub use dedupe::DedupeResult;
 pub use loader::Loader;
+
+#[cfg(verif_hooks)]
+pub use {
+    cache::{HashMapCache, NoCache},
+    dedupe::Dedupe,
+    factory::CacheFactory,
+    storage::CacheStorage,
+};
diff --git a/src/core/generator/mod.rs b/src/core/generator/mod.rs
index b988843..526d37a 100644
--- a/src/core/generator/mod.rs
+++ b/src/core/generator/mod.rs
@@ -7,6 +7,8 @@ mod proto;
 
 pub use from_json::{FromJsonGenerator, RequestSample};
 pub use generator::{Generator, Input};
+#[cfg(verif_hooks)]
+pub use graphql_type::{GraphQLType, Parsed, Unparsed};
 
 use crate::core::counter::{Count, Counter};
 
diff --git a/src/core/http/mod.rs b/src/core/http/mod.rs
index 816f0fc..0544134 100644
--- a/src/core/http/mod.rs
+++ b/src/core/http/mod.rs
@@ -22,5 +22,8 @@ pub mod showcase;
 mod telemetry;
 mod transformations;
 
+#[cfg(verif_hooks)]
+pub use transformations::{BodyBatching, QueryBatching};
+
 pub static TAILCALL_HTTPS_ORIGIN: HeaderValue = HeaderValue::from_static("https://tailcall.run");
 pub static TAILCALL_HTTP_ORIGIN: HeaderValue = HeaderValue::from_static("http://tailcall.run");
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 702d5a0..dd1243c 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -40,6 +40,8 @@ pub mod tracing;
 mod transform;
 pub mod try_fold;
 pub mod variance;
+#[cfg(verif_hooks)]
+pub mod verif;
 pub mod worker;
 pub mod worker_hooks;
 pub mod wrapping_type;
diff --git a/src/core/rest/mod.rs b/src/core/rest/mod.rs
index 2a086d5..2ba722c 100644
--- a/src/core/rest/mod.rs
+++ b/src/core/rest/mod.rs
@@ -13,3 +13,11 @@ pub use endpoint_set::{Checked, EndpointSet, Unchecked};
 
 type Request = http::Request<hyper::Body>;
 pub use error::{Error, Result};
+
+#[cfg(verif_hooks)]
+pub use {
+    path::{Path, Segment},
+    query_params::QueryParams,
+    type_map::TypeMap,
+    typed_variables::{TypedVariable, UrlParamType, N},
+};
diff --git a/src/core/verif.rs b/src/core/verif.rs
new file mode 100644
index 0000000..7f54d84
--- /dev/null
+++ b/src/core/verif.rs
@@ -0,0 +1,11 @@
+//! Re-exports of private items for runtime monitors that live outside the
+//! repository. Compiled only with `--cfg verif_hooks`.
+pub use crate::core::auth::basic::BasicVerifier;
+pub use crate::core::auth::error::Error as AuthError;
+pub use crate::core::auth::jwt::{jwks, jwt_verify};
+pub use crate::core::auth::verify::{AuthVerifier, Verifier};
+pub use crate::core::auth::Verification;
+pub use crate::core::counter::{AtomicCounter, Count, Counter};
+pub use crate::core::lift::{CanLift, Lift};
+pub use crate::core::serde_value_ext::ValueExt;
+pub use crate::core::transform::TransformerOps;
diff --git a/src/lib.rs b/src/lib.rs
index a32ab95..003aaa1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)] // cfg(verif_hooks): see core/verif.rs
 #[cfg(feature = "cli")]
 mod allocator;
 pub mod core;
-- 
2.43.0


From b0cf972a9279bad44f9b235cafaac3e387bec56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 002/122] fix: use a collision resistant hasher for request
 identities

FxHash maps texts that differ only around an 8 byte boundary to the same
value (http://api.example.com/v1/posts?userId=104 and ...userId=828), so data
loader keys, in-flight deduplication and @cache treated different upstream
requests as one and answered one with the response of the other.
---
 tailcall-hasher/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tailcall-hasher/src/lib.rs b/tailcall-hasher/src/lib.rs
index e84e773..404e9e5 100644
--- a/tailcall-hasher/src/lib.rs
+++ b/tailcall-hasher/src/lib.rs
@@ -1,13 +1,13 @@
+use std::collections::hash_map::DefaultHasher;
 use std::hash::Hasher;
 
-use fxhash::FxHasher;
-
-/// A hasher that uses the FxHash algorithm. Currently it's a dumb wrapper
-/// around `fxhash::FxHasher`. We could potentially add some custom logic here
-/// in the future.
+/// A hasher whose 64 bit output is used as the identity of requests, e.g. in
+/// caches and data loaders. That requires an algorithm for which inputs that
+/// differ only slightly don't collide, so it wraps the SipHash based
+/// `DefaultHasher` with its fixed keys.
 #[derive(Default)]
 pub struct TailcallHasher {
-    hasher: FxHasher,
+    hasher: DefaultHasher,
 }
 
 impl Hasher for TailcallHasher {
-- 
2.43.0


From 688dcb9ae01ab69ebb2c7c5f9f373d46d607c6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 003/122] fix: make url and headers part of the identity of
 graphql requests

The cache key of a @graphQL resolver was the query text alone, so with @cache
or dedupe the same query sent to another url, or for a client with another
forwarded header, was answered with the first response.
---
 src/core/graphql/request_template.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/graphql/request_template.rs b/src/core/graphql/request_template.rs
index 9e849d3..b2f3a81 100644
--- a/src/core/graphql/request_template.rs
+++ b/src/core/graphql/request_template.rs
@@ -195,6 +195,18 @@ impl RequestTemplate {
 impl<Ctx: PathGraphql + HasHeaders + GraphQLOperationContext> CacheKey<Ctx> for RequestTemplate {
     fn cache_key(&self, ctx: &Ctx) -> Option<IoId> {
         let mut hasher = TailcallHasher::default();
+        self.url.hash(&mut hasher);
+
+        for (name, mustache) in self.headers.iter() {
+            name.hash(&mut hasher);
+            mustache.render_graphql(ctx).hash(&mut hasher);
+        }
+
+        for (name, value) in ctx.headers().iter() {
+            name.hash(&mut hasher);
+            value.hash(&mut hasher);
+        }
+
         let graphql_query = self.render_graphql_query(ctx);
         graphql_query.hash(&mut hasher);
         Some(IoId::new(hasher.finish()))
-- 
2.43.0


From f706b39fa0c2b475ccb51bb8021abbb6129c81ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 004/122] fix: make headers part of the identity of grpc
 requests

With @cache or dedupe a @grpc resolver answered a client with the response
fetched with another client's forwarded headers.
---
 src/core/grpc/request_template.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/grpc/request_template.rs b/src/core/grpc/request_template.rs
index 4643c59..a5b0553 100644
--- a/src/core/grpc/request_template.rs
+++ b/src/core/grpc/request_template.rs
@@ -122,6 +122,11 @@ impl<Ctx: PathString + HasHeaders> CacheKey<Ctx> for RequestTemplate {
         let mut hasher = TailcallHasher::default();
         let rendered_req = self.render(ctx).unwrap();
         rendered_req.hash(&mut hasher);
+
+        for (name, value) in rendered_req.headers.iter() {
+            name.hash(&mut hasher);
+            value.hash(&mut hasher);
+        }
         Some(IoId::new(hasher.finish()))
     }
 }
-- 
2.43.0


From 04225f856e59a5ba4279bb948e96d97b74f73d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 005/122] fix: keep the outcomes of batched upstream requests
 apart

---
 src/core/graphql/data_loader.rs |  13 ++-
 src/core/grpc/data_loader.rs    |  22 ++--
 src/core/http/data_loader.rs    | 185 +++++++++++++++++---------------
 src/core/ir/eval_http.rs        |  12 ++-
 4 files changed, 133 insertions(+), 99 deletions(-)

diff --git a/src/core/graphql/data_loader.rs b/src/core/graphql/data_loader.rs
index dd637c4..1b0b694 100644
--- a/src/core/graphql/data_loader.rs
+++ b/src/core/graphql/data_loader.rs
@@ -33,7 +33,8 @@ impl GraphqlDataLoader {
 
 #[async_trait::async_trait]
 impl Loader<DataLoaderRequest> for GraphqlDataLoader {
-    type Value = Response<async_graphql::Value>;
+    // every request has its own outcome: a failure of one must not affect the others
+    type Value = Result<Response<async_graphql::Value>, Arc<anyhow::Error>>;
     type Error = Arc<anyhow::Error>;
 
     #[allow(clippy::mutable_key_type)]
@@ -45,17 +46,21 @@ impl Loader<DataLoaderRequest> for GraphqlDataLoader {
             let batched_req = create_batched_request(keys);
             let result = self.runtime.http.execute(batched_req).await?.to_json();
             let hashmap = extract_responses(result, keys);
-            Ok(hashmap)
+            Ok(hashmap
+                .into_iter()
+                .map(|(key, value)| (key, Ok(value)))
+                .collect())
         } else {
             let results = keys.iter().map(|key| async {
                 let result = self.runtime.http.execute(key.to_request()).await;
-                (key.clone(), result)
+                let result = result.and_then(|response| response.to_json());
+                (key.clone(), result.map_err(Arc::new))
             });
             let results = join_all(results).await;
             #[allow(clippy::mutable_key_type)]
             let mut hashmap = HashMap::new();
             for (key, value) in results {
-                hashmap.insert(key, value?.to_json()?);
+                hashmap.insert(key, value);
             }
 
             Ok(hashmap)
diff --git a/src/core/grpc/data_loader.rs b/src/core/grpc/data_loader.rs
index 38dac54..ff840ca 100644
--- a/src/core/grpc/data_loader.rs
+++ b/src/core/grpc/data_loader.rs
@@ -35,7 +35,7 @@ impl GrpcDataLoader {
     async fn load_dedupe_only(
         &self,
         keys: &[DataLoaderRequest],
-    ) -> anyhow::Result<HashMap<DataLoaderRequest, Response<async_graphql::Value>>> {
+    ) -> HashMap<DataLoaderRequest, <Self as Loader<DataLoaderRequest>>::Value> {
         let results = keys.iter().map(|key| async {
             let result = match key.to_request() {
                 Ok(req) => execute_grpc_request(&self.runtime, &self.operation, req).await,
@@ -44,7 +44,7 @@ impl GrpcDataLoader {
 
             // TODO: do we have to clone keys here? join_all seems like returns the results
             // in passed order
-            (key.clone(), result)
+            (key.clone(), result.map_err(Arc::new))
         });
 
         let results = join_all(results).await;
@@ -52,10 +52,10 @@ impl GrpcDataLoader {
         #[allow(clippy::mutable_key_type)]
         let mut hashmap = HashMap::new();
         for (key, value) in results {
-            hashmap.insert(key, value?);
+            hashmap.insert(key, value);
         }
 
-        Ok(hashmap)
+        hashmap
     }
 
     async fn load_with_group_by(
@@ -100,7 +100,8 @@ impl GrpcDataLoader {
 
 #[async_trait::async_trait]
 impl Loader<DataLoaderRequest> for GrpcDataLoader {
-    type Value = Response<async_graphql::Value>;
+    // every request has its own outcome: a failure of one must not affect the others
+    type Value = Result<Response<async_graphql::Value>, Arc<anyhow::Error>>;
     type Error = Arc<anyhow::Error>;
 
     async fn load(
@@ -108,11 +109,16 @@ impl Loader<DataLoaderRequest> for GrpcDataLoader {
         keys: &[DataLoaderRequest],
     ) -> async_graphql::Result<HashMap<DataLoaderRequest, Self::Value>, Self::Error> {
         if let Some(group_by) = &self.group_by {
-            self.load_with_group_by(group_by, keys)
+            let values = self
+                .load_with_group_by(group_by, keys)
                 .await
-                .map_err(Arc::new)
+                .map_err(Arc::new)?;
+            Ok(values
+                .into_iter()
+                .map(|(key, value)| (key, Ok(value)))
+                .collect())
         } else {
-            self.load_dedupe_only(keys).await.map_err(Arc::new)
+            Ok(self.load_dedupe_only(keys).await)
         }
     }
 }
diff --git a/src/core/http/data_loader.rs b/src/core/http/data_loader.rs
index 72d72c4..9c9af0c 100644
--- a/src/core/http/data_loader.rs
+++ b/src/core/http/data_loader.rs
@@ -51,11 +51,102 @@ impl HttpDataLoader {
             .delay(Duration::from_millis(batch.delay as u64))
             .max_batch_size(batch.max_size.unwrap_or_default())
     }
+
+    async fn load_group(
+        &self,
+        keys: &[DataLoaderRequest],
+        group_by: &GroupBy,
+    ) -> Result<HashMap<DataLoaderRequest, Response<async_graphql::Value>>, Arc<anyhow::Error>>
+    {
+        let query_name = group_by.key();
+        let mut dl_requests = keys.to_vec();
+        if cfg!(debug_assertions) {
+            // Sort keys to build consistent URLs only in Testing environment.
+            dl_requests.sort_by(|a, b| a.to_request().url().cmp(b.to_request().url()));
+        }
+
+        if let Some(base_dl_request) = dl_requests.first().as_mut() {
+            let base_request = if base_dl_request.method() == http::Method::GET {
+                QueryBatching::new(
+                    &dl_requests.iter().skip(1).collect::<Vec<_>>(),
+                    Some(group_by.key()),
+                )
+                .transform(base_dl_request.to_request())
+                .to_result()
+                .map_err(|e| anyhow::anyhow!(e))?
+            } else {
+                QueryBatching::new(&dl_requests.iter().skip(1).collect::<Vec<_>>(), None)
+                    .pipe(BodyBatching::new(&dl_requests.iter().collect::<Vec<_>>()))
+                    .transform(base_dl_request.to_request())
+                    .to_result()
+                    .map_err(|e| anyhow::anyhow!(e))?
+            };
+
+            // Dispatch request
+            let res = self
+                .runtime
+                .http
+                .execute(base_request)
+                .await?
+                .to_json::<ConstValue>()?;
+
+            // Create a response HashMap
+            #[allow(clippy::mutable_key_type)]
+            let mut hashmap = HashMap::with_capacity(dl_requests.len());
+
+            // Parse the response body and group it by batchKey
+            let path = &group_by.path();
+
+            // ResponseMap contains the response body grouped by the batchKey
+            let response_map = res.body.group_by(path);
+
+            // depending on graphql type, it will extract the data out of the response.
+            let data_extractor = if self.is_list {
+                get_body_value_list
+            } else {
+                get_body_value_single
+            };
+
+            // For each request and insert its corresponding value
+            if base_dl_request.method() == reqwest::Method::GET {
+                for dl_req in dl_requests.iter() {
+                    let url = dl_req.url();
+                    let query_set: HashMap<_, _> = url.query_pairs().collect();
+                    let id = query_set.get(query_name).ok_or(anyhow::anyhow!(
+                        "Unable to find key {} in query params",
+                        query_name
+                    ))?;
+
+                    // Clone the response and set the body
+                    let body = data_extractor(&response_map, id);
+                    let res = res.clone().body(body);
+
+                    hashmap.insert(dl_req.clone(), res);
+                }
+            } else {
+                for dl_req in dl_requests.into_iter() {
+                    let body_key = dl_req.batching_value().ok_or(anyhow::anyhow!(
+                        "Unable to find batching value in the body for data loader request {}",
+                        dl_req.url().as_str()
+                    ))?;
+                    let extracted_value = data_extractor(&response_map, body_key);
+                    let res = res.clone().body(extracted_value);
+                    hashmap.insert(dl_req.clone(), res);
+                }
+            }
+
+            Ok(hashmap)
+        } else {
+            let error_message = "This is definitely a bug in http data loaders, please report it to the maintainers.";
+            Err(anyhow::anyhow!(error_message).into())
+        }
+    }
 }
 
 #[async_trait::async_trait]
 impl Loader<DataLoaderRequest> for HttpDataLoader {
-    type Value = Response<async_graphql::Value>;
+    // every request has its own outcome: a failure of one must not affect the others
+    type Value = Result<Response<async_graphql::Value>, Arc<anyhow::Error>>;
     type Error = Arc<anyhow::Error>;
 
     async fn load(
@@ -63,92 +154,16 @@ impl Loader<DataLoaderRequest> for HttpDataLoader {
         keys: &[DataLoaderRequest],
     ) -> async_graphql::Result<HashMap<DataLoaderRequest, Self::Value>, Self::Error> {
         if let Some(group_by) = &self.group_by {
-            let query_name = group_by.key();
-            let mut dl_requests = keys.to_vec();
-            if cfg!(debug_assertions) {
-                // Sort keys to build consistent URLs only in Testing environment.
-                dl_requests.sort_by(|a, b| a.to_request().url().cmp(b.to_request().url()));
-            }
-
-            if let Some(base_dl_request) = dl_requests.first().as_mut() {
-                let base_request = if base_dl_request.method() == http::Method::GET {
-                    QueryBatching::new(
-                        &dl_requests.iter().skip(1).collect::<Vec<_>>(),
-                        Some(group_by.key()),
-                    )
-                    .transform(base_dl_request.to_request())
-                    .to_result()
-                    .map_err(|e| anyhow::anyhow!(e))?
-                } else {
-                    QueryBatching::new(&dl_requests.iter().skip(1).collect::<Vec<_>>(), None)
-                        .pipe(BodyBatching::new(&dl_requests.iter().collect::<Vec<_>>()))
-                        .transform(base_dl_request.to_request())
-                        .to_result()
-                        .map_err(|e| anyhow::anyhow!(e))?
-                };
-
-                // Dispatch request
-                let res = self
-                    .runtime
-                    .http
-                    .execute(base_request)
-                    .await?
-                    .to_json::<ConstValue>()?;
-
-                // Create a response HashMap
-                #[allow(clippy::mutable_key_type)]
-                let mut hashmap = HashMap::with_capacity(dl_requests.len());
-
-                // Parse the response body and group it by batchKey
-                let path = &group_by.path();
-
-                // ResponseMap contains the response body grouped by the batchKey
-                let response_map = res.body.group_by(path);
-
-                // depending on graphql type, it will extract the data out of the response.
-                let data_extractor = if self.is_list {
-                    get_body_value_list
-                } else {
-                    get_body_value_single
-                };
-
-                // For each request and insert its corresponding value
-                if base_dl_request.method() == reqwest::Method::GET {
-                    for dl_req in dl_requests.iter() {
-                        let url = dl_req.url();
-                        let query_set: HashMap<_, _> = url.query_pairs().collect();
-                        let id = query_set.get(query_name).ok_or(anyhow::anyhow!(
-                            "Unable to find key {} in query params",
-                            query_name
-                        ))?;
-
-                        // Clone the response and set the body
-                        let body = data_extractor(&response_map, id);
-                        let res = res.clone().body(body);
-
-                        hashmap.insert(dl_req.clone(), res);
-                    }
-                } else {
-                    for dl_req in dl_requests.into_iter() {
-                        let body_key = dl_req.batching_value().ok_or(anyhow::anyhow!(
-                            "Unable to find batching value in the body for data loader request {}",
-                            dl_req.url().as_str()
-                        ))?;
-                        let extracted_value = data_extractor(&response_map, body_key);
-                        let res = res.clone().body(extracted_value);
-                        hashmap.insert(dl_req.clone(), res);
-                    }
-                }
-
-                Ok(hashmap)
-            } else {
-                let error_message = "This is definitely a bug in http data loaders, please report it to the maintainers.";
-                Err(anyhow::anyhow!(error_message).into())
-            }
+            let values = self.load_group(keys, group_by).await?;
+            Ok(values
+                .into_iter()
+                .map(|(key, value)| (key, Ok(value)))
+                .collect())
         } else {
             let results = keys.iter().map(|key| async {
                 let result = self.runtime.http.execute(key.to_request()).await;
-                (key.clone(), result)
+                let result = result.and_then(|response| response.to_json());
+                (key.clone(), result.map_err(Arc::new))
             });
 
             let results = join_all(results).await;
@@ -156,7 +171,7 @@ impl Loader<DataLoaderRequest> for HttpDataLoader {
             #[allow(clippy::mutable_key_type)]
             let mut hashmap = HashMap::with_capacity(results.len());
             for (key, value) in results {
-                hashmap.insert(key, value?.to_json()?);
+                hashmap.insert(key, value);
             }
 
             Ok(hashmap)
diff --git a/src/core/ir/eval_http.rs b/src/core/ir/eval_http.rs
index d863472..8145119 100644
--- a/src/core/ir/eval_http.rs
+++ b/src/core/ir/eval_http.rs
@@ -147,7 +147,11 @@ impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context>
 pub async fn execute_request_with_dl<
     'ctx,
     Ctx: ResolverContextLike,
-    Dl: Loader<DataLoaderRequest, Value = Response<async_graphql::Value>, Error = Arc<anyhow::Error>>,
+    Dl: Loader<
+        DataLoaderRequest,
+        Value = Result<Response<async_graphql::Value>, Arc<anyhow::Error>>,
+        Error = Arc<anyhow::Error>,
+    >,
 >(
     ctx: &EvalContext<'ctx, Ctx>,
     req: DynamicRequest<String>,
@@ -170,6 +174,8 @@ pub async fn execute_request_with_dl<
         .load_one(endpoint_key)
         .await
         .map_err(Error::from)?
+        .transpose()
+        .map_err(Error::from)?
         .unwrap_or_default())
 }
 
@@ -239,7 +245,7 @@ pub async fn execute_grpc_request_with_dl<
     Ctx: ResolverContextLike,
     Dl: Loader<
         grpc::DataLoaderRequest,
-        Value = Response<async_graphql::Value>,
+        Value = Result<Response<async_graphql::Value>, Arc<anyhow::Error>>,
         Error = Arc<anyhow::Error>,
     >,
 >(
@@ -261,6 +267,8 @@ pub async fn execute_grpc_request_with_dl<
         .load_one(endpoint_key)
         .await
         .map_err(Error::from)?
+        .transpose()
+        .map_err(Error::from)?
         .unwrap_or_default())
 }
 
-- 
2.43.0


From 5ffb943806a97204299a80f4df1bd1c726162e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 006/122] fix: batch together only requests that differ in
 nothing but the grouped key

---
 src/core/graphql/data_loader.rs      | 62 ++++++++++++++----------
 src/core/grpc/data_loader.rs         | 32 +++++++++----
 src/core/grpc/data_loader_request.rs | 11 +++++
 src/core/http/data_loader.rs         | 72 ++++++++++++++++++++++++++--
 4 files changed, 138 insertions(+), 39 deletions(-)

diff --git a/src/core/graphql/data_loader.rs b/src/core/graphql/data_loader.rs
index 1b0b694..01d598b 100644
--- a/src/core/graphql/data_loader.rs
+++ b/src/core/graphql/data_loader.rs
@@ -8,7 +8,7 @@ use async_graphql::futures_util::future::join_all;
 
 use crate::core::config::Batch;
 use crate::core::data_loader::{DataLoader, Loader};
-use crate::core::http::{DataLoaderRequest, Response};
+use crate::core::http::{batch_headers, split_batches, DataLoaderRequest, Response};
 use crate::core::runtime::TargetRuntime;
 
 pub struct GraphqlDataLoader {
@@ -43,13 +43,27 @@ impl Loader<DataLoaderRequest> for GraphqlDataLoader {
         keys: &[DataLoaderRequest],
     ) -> async_graphql::Result<HashMap<DataLoaderRequest, Self::Value>, Self::Error> {
         if self.batch {
-            let batched_req = create_batched_request(keys);
-            let result = self.runtime.http.execute(batched_req).await?.to_json();
-            let hashmap = extract_responses(result, keys);
-            Ok(hashmap
-                .into_iter()
-                .map(|(key, value)| (key, Ok(value)))
-                .collect())
+            // only requests with the same target and designated headers can be sent together
+            let batches = split_batches(keys, |key| {
+                (key.method().clone(), key.url().clone(), batch_headers(key))
+            });
+            let results = join_all(batches.into_iter().map(|batch| async {
+                let batched_req = create_batched_request(&batch);
+                let result = self.runtime.http.execute(batched_req).await;
+                (batch, result.and_then(|response| response.to_json()))
+            }))
+            .await;
+            let mut hashmap = HashMap::new();
+            for (batch, result) in results {
+                match result {
+                    Ok(response) => hashmap.extend(extract_responses(response, &batch)),
+                    Err(error) => {
+                        let error = Arc::new(error);
+                        hashmap.extend(batch.into_iter().map(|key| (key, Err(error.clone()))))
+                    }
+                }
+            }
+            Ok(hashmap)
         } else {
             let results = keys.iter().map(|key| async {
                 let result = self.runtime.http.execute(key.to_request()).await;
@@ -97,25 +111,23 @@ fn create_batched_request(dataloader_requests: &[DataLoaderRequest]) -> reqwest:
 
 #[allow(clippy::mutable_key_type)]
 fn extract_responses(
-    result: Result<Response<async_graphql::Value>, anyhow::Error>,
+    res: Response<async_graphql::Value>,
     keys: &[DataLoaderRequest],
-) -> HashMap<DataLoaderRequest, Response<async_graphql::Value>> {
+) -> HashMap<DataLoaderRequest, <GraphqlDataLoader as Loader<DataLoaderRequest>>::Value> {
     let mut hashmap = HashMap::new();
-    if let Ok(res) = result {
-        if let async_graphql_value::ConstValue::List(values) = res.body {
-            for (i, request) in keys.iter().enumerate() {
-                let value = values
-                    .get(i)
-                    .unwrap_or(&async_graphql_value::ConstValue::Null);
-                hashmap.insert(
-                    request.clone(),
-                    Response {
-                        status: res.status,
-                        headers: res.headers.clone(),
-                        body: value.clone(),
-                    },
-                );
-            }
+    if let async_graphql_value::ConstValue::List(values) = res.body {
+        for (i, request) in keys.iter().enumerate() {
+            let value = values
+                .get(i)
+                .unwrap_or(&async_graphql_value::ConstValue::Null);
+            hashmap.insert(
+                request.clone(),
+                Ok(Response {
+                    status: res.status,
+                    headers: res.headers.clone(),
+                    body: value.clone(),
+                }),
+            );
         }
     }
     hashmap
diff --git a/src/core/grpc/data_loader.rs b/src/core/grpc/data_loader.rs
index ff840ca..8185713 100644
--- a/src/core/grpc/data_loader.rs
+++ b/src/core/grpc/data_loader.rs
@@ -14,7 +14,7 @@ use crate::core::config::group_by::GroupBy;
 use crate::core::config::Batch;
 use crate::core::data_loader::{DataLoader, Loader};
 use crate::core::grpc::request::create_grpc_request;
-use crate::core::http::Response;
+use crate::core::http::{split_batches, Response};
 use crate::core::json::JsonLike;
 use crate::core::runtime::TargetRuntime;
 
@@ -109,14 +109,28 @@ impl Loader<DataLoaderRequest> for GrpcDataLoader {
         keys: &[DataLoaderRequest],
     ) -> async_graphql::Result<HashMap<DataLoaderRequest, Self::Value>, Self::Error> {
         if let Some(group_by) = &self.group_by {
-            let values = self
-                .load_with_group_by(group_by, keys)
-                .await
-                .map_err(Arc::new)?;
-            Ok(values
-                .into_iter()
-                .map(|(key, value)| (key, Ok(value)))
-                .collect())
+            // only requests with the same target and designated headers can be sent together
+            let batches = split_batches(keys, |key| (key.template.url.clone(), key.headers()));
+            let results = join_all(batches.into_iter().map(|batch| async {
+                let result = self.load_with_group_by(group_by, &batch).await;
+                (batch, result)
+            }))
+            .await;
+
+            #[allow(clippy::mutable_key_type)]
+            let mut hashmap = HashMap::new();
+            for (batch, result) in results {
+                match result {
+                    Ok(values) => {
+                        hashmap.extend(values.into_iter().map(|(key, value)| (key, Ok(value))))
+                    }
+                    Err(error) => {
+                        let error = Arc::new(error);
+                        hashmap.extend(batch.into_iter().map(|key| (key, Err(error.clone()))))
+                    }
+                }
+            }
+            Ok(hashmap)
         } else {
             Ok(self.load_dedupe_only(keys).await)
         }
diff --git a/src/core/grpc/data_loader_request.rs b/src/core/grpc/data_loader_request.rs
index 7ee4bba..434e915 100644
--- a/src/core/grpc/data_loader_request.rs
+++ b/src/core/grpc/data_loader_request.rs
@@ -45,6 +45,17 @@ impl DataLoaderRequest {
         Self { template, batch_headers }
     }
 
+    /// Values of the headers that are designated as significant for batching
+    pub fn headers(&self) -> Vec<Vec<http::HeaderValue>> {
+        self.batch_headers
+            .iter()
+            .map(|name| {
+                let values = self.template.headers.get_all(name);
+                values.iter().cloned().collect()
+            })
+            .collect()
+    }
+
     pub fn to_request(&self) -> Result<reqwest::Request> {
         self.template.to_request()
     }
diff --git a/src/core/http/data_loader.rs b/src/core/http/data_loader.rs
index 9c9af0c..5748a5c 100644
--- a/src/core/http/data_loader.rs
+++ b/src/core/http/data_loader.rs
@@ -143,6 +143,50 @@ impl HttpDataLoader {
     }
 }
 
+/// Everything that identifies an upstream request apart from the value it is
+/// grouped by: for GET requests it's a parameter of the query, for others it's
+/// a part of the body.
+fn batch_id(request: &DataLoaderRequest, group_key: &str) -> impl PartialEq {
+    let mut url = request.url().clone();
+    if request.method() == http::Method::GET {
+        let pairs: Vec<_> = request
+            .url()
+            .query_pairs()
+            .filter(|(key, _)| key != group_key)
+            .collect();
+        url.query_pairs_mut().clear().extend_pairs(pairs);
+    } else {
+        url.set_query(None);
+    }
+
+    (request.method().clone(), url, batch_headers(request))
+}
+
+/// Values of the headers that are designated as significant for batching
+pub fn batch_headers(request: &DataLoaderRequest) -> Vec<Vec<reqwest::header::HeaderValue>> {
+    let headers = reqwest::Request::headers(request);
+    DataLoaderRequest::headers(request)
+        .iter()
+        .map(|name| headers.get_all(name).iter().cloned().collect())
+        .collect()
+}
+
+/// Splits the requests by their id, preserving the order
+pub fn split_batches<Req: Clone, Id: PartialEq>(
+    requests: &[Req],
+    id: impl Fn(&Req) -> Id,
+) -> Vec<Vec<Req>> {
+    let mut batches: Vec<(Id, Vec<Req>)> = Vec::new();
+    for request in requests {
+        let id = id(request);
+        match batches.iter_mut().find(|(batch_id, _)| *batch_id == id) {
+            Some((_, batch)) => batch.push(request.clone()),
+            None => batches.push((id, vec![request.clone()])),
+        }
+    }
+    batches.into_iter().map(|(_, batch)| batch).collect()
+}
+
 #[async_trait::async_trait]
 impl Loader<DataLoaderRequest> for HttpDataLoader {
     // every request has its own outcome: a failure of one must not affect the others
@@ -154,11 +198,29 @@ impl Loader<DataLoaderRequest> for HttpDataLoader {
         keys: &[DataLoaderRequest],
     ) -> async_graphql::Result<HashMap<DataLoaderRequest, Self::Value>, Self::Error> {
         if let Some(group_by) = &self.group_by {
-            let values = self.load_group(keys, group_by).await?;
-            Ok(values
-                .into_iter()
-                .map(|(key, value)| (key, Ok(value)))
-                .collect())
+            // Only requests that differ in nothing but the value they are grouped by can
+            // share a single upstream request.
+            let batches = split_batches(keys, |key| batch_id(key, group_by.key()));
+            let results = join_all(batches.into_iter().map(|batch| async {
+                let result = self.load_group(&batch, group_by).await;
+                (batch, result)
+            }))
+            .await;
+
+            #[allow(clippy::mutable_key_type)]
+            let mut hashmap = HashMap::with_capacity(keys.len());
+            for (batch, result) in results {
+                match result {
+                    Ok(values) => {
+                        hashmap.extend(values.into_iter().map(|(key, value)| (key, Ok(value))))
+                    }
+                    Err(error) => {
+                        hashmap.extend(batch.into_iter().map(|key| (key, Err(error.clone()))))
+                    }
+                }
+            }
+
+            Ok(hashmap)
         } else {
             let results = keys.iter().map(|key| async {
                 let result = self.runtime.http.execute(key.to_request()).await;
-- 
2.43.0


From 4587b2978f8f1f5307d7acbbd1de69bd4bbf9f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 007/122] fix: group by large integer keys exactly

---
 src/core/json/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/json/mod.rs b/src/core/json/mod.rs
index c1a11d6..40410da 100644
--- a/src/core/json/mod.rs
+++ b/src/core/json/mod.rs
@@ -44,6 +44,9 @@ fn group_by_key<'json, J: JsonLike<'json>>(
         let key_str = key
             .as_str()
             .map(|a| a.to_string())
+            // integers may not be representable as f64
+            .or_else(|| key.as_i64().map(|a| a.to_string()))
+            .or_else(|| key.as_u64().map(|a| a.to_string()))
             .or_else(|| key.as_f64().map(|a| a.to_string()));
 
         if let Some(key) = key_str {
-- 
2.43.0


From e0be59192b1ef244eb66f6ac4f60d00369c5bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 008/122] fix: prepend the name to every expression of a
 template

---
 src/core/blueprint/dynamic_value.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/core/blueprint/dynamic_value.rs b/src/core/blueprint/dynamic_value.rs
index 1900b73..5dfd16c 100644
--- a/src/core/blueprint/dynamic_value.rs
+++ b/src/core/blueprint/dynamic_value.rs
@@ -26,17 +26,12 @@ impl<A> DynamicValue<A> {
         match self {
             DynamicValue::Value(value) => DynamicValue::Value(value),
             DynamicValue::Mustache(mut mustache) => {
-                if mustache.is_const() {
-                    DynamicValue::Mustache(mustache)
-                } else {
-                    let segments = mustache.segments_mut();
-                    if let Some(crate::core::mustache::Segment::Expression(vec)) =
-                        segments.get_mut(0)
-                    {
+                for segment in mustache.segments_mut() {
+                    if let crate::core::mustache::Segment::Expression(vec) = segment {
                         vec.insert(0, name.to_string());
                     }
-                    DynamicValue::Mustache(mustache)
                 }
+                DynamicValue::Mustache(mustache)
             }
             DynamicValue::Object(index_map) => {
                 let index_map = index_map
-- 
2.43.0


From b1d5884a157f4ea1c9494286e5c73e1c2d562b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 009/122] fix: escape strings rendered into graphql documents

---
 src/core/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/path.rs b/src/core/path.rs
index 006450d..def67d0 100644
--- a/src/core/path.rs
+++ b/src/core/path.rs
@@ -122,7 +122,7 @@ impl<Ctx: ResolverContextLike> PathGraphql for EvalContext<'_, Ctx> {
 
         self.to_raw_value(path).map(|value| match value {
             ValueString::Value(val) => val.to_string(),
-            ValueString::String(val) => format!(r#""{val}""#),
+            ValueString::String(val) => async_graphql::Value::String(val.into_owned()).to_string(),
         })
     }
 }
-- 
2.43.0


From 53c8650d3c809241e2158cb127a39743eeef8565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 010/122] fix: render every segment of a query parameter's
 template

---
 src/core/http/request_template.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 1c57f14..7b1682a 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -288,21 +288,30 @@ impl<A> Default for ValueStringEval<A> {
     }
 }
 
-impl<'a, A: PathValue> Eval<'a> for ValueStringEval<A> {
+impl<'a, A: PathValue + PathString> Eval<'a> for ValueStringEval<A> {
     type In = A;
     type Out = Option<ValueString<'a>>;
 
     fn eval(&self, mustache: &Mustache, in_value: &'a Self::In) -> Self::Out {
-        mustache
-            .segments()
-            .iter()
-            .filter_map(|segment| match segment {
-                Segment::Literal(text) => Some(ValueString::Value(Cow::Owned(
-                    async_graphql::Value::String(text.to_owned()),
-                ))),
-                Segment::Expression(parts) => in_value.raw_value(parts),
-            })
-            .next() // Return the first value that is found
+        match mustache.segments().as_slice() {
+            // a lone expression keeps its value, so that lists can be expanded
+            [Segment::Expression(parts)] => in_value.raw_value(parts),
+            segments => {
+                let mut result = String::new();
+                for segment in segments {
+                    match segment {
+                        Segment::Literal(text) => result.push_str(text),
+                        Segment::Expression(parts) => {
+                            if let Some(value) = in_value.path_string(parts) {
+                                result.push_str(value.as_ref());
+                            }
+                        }
+                    }
+                }
+
+                (!result.is_empty()).then_some(ValueString::String(Cow::Owned(result)))
+            }
+        }
     }
 }
 
-- 
2.43.0


From 07a2e36dcab00dc570d44f6f285e403bad9517c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 011/122] fix: escape the values of query parameters

---
 src/core/http/query_encoder.rs    | 19 ++++++++++++++++++-
 src/core/http/request_template.rs | 23 ++++++++++++++++-------
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/core/http/query_encoder.rs b/src/core/http/query_encoder.rs
index 208c7a9..0b0454c 100644
--- a/src/core/http/query_encoder.rs
+++ b/src/core/http/query_encoder.rs
@@ -12,6 +12,7 @@ pub enum QueryEncoder {
 }
 
 impl QueryEncoder {
+    /// Strings are expected to be encoded already
     pub fn encode(&self, key: &str, raw_value: Option<ValueString>) -> String {
         if let Some(value) = raw_value {
             match &value {
@@ -59,9 +60,25 @@ impl QueryEncoder {
     }
 }
 
+/// Escapes the characters that would otherwise end a query parameter or be
+/// decoded into something else. All the other characters which aren't allowed
+/// in a query are escaped by the url itself.
+pub fn encode_query_part(text: &str) -> String {
+    let mut encoded = String::with_capacity(text.len());
+    for ch in text.chars() {
+        match ch {
+            '%' => encoded.push_str("%25"),
+            '&' => encoded.push_str("%26"),
+            '+' => encoded.push_str("%2B"),
+            ch => encoded.push(ch),
+        }
+    }
+    encoded
+}
+
 pub fn convert_value(value: &async_graphql::Value) -> Option<String> {
     match value {
-        async_graphql::Value::String(s) => Some(s.to_string()),
+        async_graphql::Value::String(s) => Some(encode_query_part(s)),
         async_graphql::Value::Number(n) => Some(n.to_string()),
         async_graphql::Value::Boolean(b) => Some(b.to_string()),
         async_graphql::Value::Enum(e) => Some(e.to_string()),
diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 7b1682a..b20733e 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -6,7 +6,7 @@ use http::header::{HeaderMap, HeaderValue};
 use tailcall_hasher::TailcallHasher;
 use url::Url;
 
-use super::query_encoder::QueryEncoder;
+use super::query_encoder::{encode_query_part, QueryEncoder};
 use crate::core::config::Encoding;
 use crate::core::endpoint::Endpoint;
 use crate::core::has_headers::HasHeaders;
@@ -64,12 +64,15 @@ impl RequestTemplate {
             }
         });
 
+        // the pairs of the base url are already encoded
         let base_qp = url
-            .query_pairs()
-            .filter_map(|(k, v)| if v.is_empty() { None } else { Some((k, v)) });
+            .query()
+            .unwrap_or_default()
+            .split('&')
+            .filter(|pair| pair.split_once('=').is_some_and(|(_, v)| !v.is_empty()))
+            .map(|pair| pair.to_string());
 
-        let qp_string = base_qp.map(|(k, v)| format!("{}={}", k, v));
-        let qp_string = qp_string.chain(extra_qp).fold("".to_string(), |str, item| {
+        let qp_string = base_qp.chain(extra_qp).fold("".to_string(), |str, item| {
             if str.is_empty() {
                 item
             } else if item.is_empty() {
@@ -295,15 +298,21 @@ impl<'a, A: PathValue + PathString> Eval<'a> for ValueStringEval<A> {
     fn eval(&self, mustache: &Mustache, in_value: &'a Self::In) -> Self::Out {
         match mustache.segments().as_slice() {
             // a lone expression keeps its value, so that lists can be expanded
-            [Segment::Expression(parts)] => in_value.raw_value(parts),
+            [Segment::Expression(parts)] => in_value.raw_value(parts).map(|value| match value {
+                ValueString::String(text) => {
+                    ValueString::String(Cow::Owned(encode_query_part(&text)))
+                }
+                value => value,
+            }),
             segments => {
                 let mut result = String::new();
                 for segment in segments {
                     match segment {
+                        // literals are used the way they are written in the configuration
                         Segment::Literal(text) => result.push_str(text),
                         Segment::Expression(parts) => {
                             if let Some(value) = in_value.path_string(parts) {
-                                result.push_str(value.as_ref());
+                                result.push_str(&encode_query_part(&value));
                             }
                         }
                     }
-- 
2.43.0


From d4ffea6ed31dd323d6fc6f882741d2157a0729df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 012/122] fix: escape values rendered into the strings of a
 json body

---
 src/core/http/request_template.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index b20733e..16214f4 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -142,7 +142,7 @@ impl RequestTemplate {
                 Encoding::ApplicationXWwwFormUrlencoded => {
                     // TODO: this is a performance bottleneck
                     // We first encode everything to string and then back to form-urlencoded
-                    let body = body_path.render(ctx);
+                    let (body, _) = ExpressionValueEval::default().eval(body_path, ctx);
                     let form_data = match serde_json::from_str::<serde_json::Value>(&body) {
                         Ok(deserialized_data) => serde_urlencoded::to_string(deserialized_data)?,
                         Err(_) => body,
@@ -351,12 +351,23 @@ impl<'a, A: PathString> Eval<'a> for ExpressionValueEval<A> {
         // - This approach eliminates the need for repeated JSON parsing/serialization
         //   during the batching process, significantly improving performance
         let mut first_expression_value = None;
+        // Unless the body consists of nothing but expressions, these are parts of
+        // the strings of a JSON document
+        let in_json_string = mustache
+            .segments()
+            .iter()
+            .any(|segment| matches!(segment, Segment::Literal(_)));
         for segment in mustache.segments().iter() {
             match segment {
                 Segment::Literal(text) => result.push_str(text),
                 Segment::Expression(parts) => {
                     if let Some(value) = in_value.path_string(parts) {
-                        result.push_str(value.as_ref());
+                        if in_json_string {
+                            let escaped = serde_json::Value::from(value.as_ref()).to_string();
+                            result.push_str(&escaped[1..escaped.len() - 1]);
+                        } else {
+                            result.push_str(value.as_ref());
+                        }
                         if first_expression_value.is_none() {
                             first_expression_value = Some(value.into_owned());
                         }
-- 
2.43.0


From 7b0223cd04e9052c04bd0546dd672b4673d83787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 013/122] fix: escape values rendered into the strings of a
 grpc message

---
 src/core/grpc/request_template.rs | 8 +++++---
 src/core/http/mod.rs              | 1 +
 src/core/http/request_template.rs | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/grpc/request_template.rs b/src/core/grpc/request_template.rs
index a5b0553..4f1ff8b 100644
--- a/src/core/grpc/request_template.rs
+++ b/src/core/grpc/request_template.rs
@@ -11,8 +11,9 @@ use crate::core::config::GraphQLOperationType;
 use crate::core::grpc::protobuf::ProtobufOperation;
 use crate::core::has_headers::HasHeaders;
 use crate::core::helpers::headers::MustacheHeaders;
+use crate::core::http::ExpressionValueEval;
 use crate::core::ir::model::{CacheKey, IoId};
-use crate::core::mustache::Mustache;
+use crate::core::mustache::{Eval, Mustache};
 use crate::core::path::PathString;
 
 static GRPC_MIME_TYPE: HeaderValue = HeaderValue::from_static("application/grpc");
@@ -35,7 +36,7 @@ pub struct RequestBody {
 impl RequestBody {
     pub fn render<C: PathString>(&self, ctx: &C) -> String {
         if let Some(mustache) = &self.mustache {
-            mustache.render(ctx)
+            ExpressionValueEval::default().eval(mustache, ctx).0
         } else {
             self.value.to_string()
         }
@@ -149,8 +150,9 @@ mod tests {
         Config, Field, GraphQLOperationType, Grpc, Link, LinkType, Resolver, Type,
     };
     use crate::core::grpc::protobuf::{ProtobufOperation, ProtobufSet};
+    use crate::core::http::ExpressionValueEval;
     use crate::core::ir::model::CacheKey;
-    use crate::core::mustache::Mustache;
+    use crate::core::mustache::{Eval, Mustache};
 
     async fn get_protobuf_op() -> ProtobufOperation {
         let test_file = protobuf::GREETINGS;
diff --git a/src/core/http/mod.rs b/src/core/http/mod.rs
index 0544134..1be13c4 100644
--- a/src/core/http/mod.rs
+++ b/src/core/http/mod.rs
@@ -6,6 +6,7 @@ pub use method::Method;
 pub use query_encoder::QueryEncoder;
 pub use request_context::RequestContext;
 pub use request_handler::{handle_request, API_URL_PREFIX};
+pub(crate) use request_template::ExpressionValueEval;
 pub use request_template::RequestTemplate;
 pub use response::*;
 
diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 16214f4..682c32e 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -324,7 +324,8 @@ impl<'a, A: PathValue + PathString> Eval<'a> for ValueStringEval<A> {
     }
 }
 
-struct ExpressionValueEval<A>(std::marker::PhantomData<A>);
+/// Renders the template of a json body, see `eval` for details.
+pub(crate) struct ExpressionValueEval<A>(std::marker::PhantomData<A>);
 impl<A> Default for ExpressionValueEval<A> {
     fn default() -> Self {
         Self(std::marker::PhantomData)
-- 
2.43.0


From a7ae3f79633d2c29123b260bc4833bcdc6388b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 014/122] fix: keep tabs and line breaks in query parameters

---
 src/core/http/query_encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/http/query_encoder.rs b/src/core/http/query_encoder.rs
index 0b0454c..f1e4a04 100644
--- a/src/core/http/query_encoder.rs
+++ b/src/core/http/query_encoder.rs
@@ -70,6 +70,10 @@ pub fn encode_query_part(text: &str) -> String {
             '%' => encoded.push_str("%25"),
             '&' => encoded.push_str("%26"),
             '+' => encoded.push_str("%2B"),
+            // dropped by the url otherwise
+            '\t' => encoded.push_str("%09"),
+            '\n' => encoded.push_str("%0A"),
+            '\r' => encoded.push_str("%0D"),
             ch => encoded.push(ch),
         }
     }
-- 
2.43.0


From a312334eb4379baffcb65572add89e3cf412fa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 015/122] fix: skip null query parameters when empty ones are
 to be skipped

---
 src/core/http/request_template.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 682c32e..46b594a 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -57,7 +57,12 @@ impl RequestTemplate {
             let value = &query.value;
             let skip = query.skip_empty;
             let parsed_value = mustache_eval.eval(value, ctx);
-            if skip && parsed_value.is_none() {
+            let is_empty = match &parsed_value {
+                None => true,
+                Some(ValueString::Value(value)) => matches!(**value, async_graphql::Value::Null),
+                Some(ValueString::String(_)) => false,
+            };
+            if skip && is_empty {
                 None
             } else {
                 Some(self.query_encoder.encode(key, parsed_value))
-- 
2.43.0


From 8eb0fe188b90a0fc10995693a94e5b0b596834d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 016/122] fix: escape text in graphql requests the way json
 does

---
 src/core/graphql/mod.rs              | 6 ++++++
 src/core/graphql/request_template.rs | 5 +++--
 src/core/ir/eval_context.rs          | 5 +++--
 src/core/jit/transform/graphql.rs    | 5 +++--
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/core/graphql/mod.rs b/src/core/graphql/mod.rs
index 3bf00b2..905a7e4 100644
--- a/src/core/graphql/mod.rs
+++ b/src/core/graphql/mod.rs
@@ -3,3 +3,9 @@ mod request_template;
 
 pub use data_loader::*;
 pub use request_template::*;
+
+/// Escapes text that becomes a part of a string in a JSON document
+pub(crate) fn escape_json(text: &str) -> String {
+    let escaped = serde_json::Value::from(text).to_string();
+    escaped[1..escaped.len() - 1].to_owned()
+}
diff --git a/src/core/graphql/request_template.rs b/src/core/graphql/request_template.rs
index b2f3a81..e597173 100644
--- a/src/core/graphql/request_template.rs
+++ b/src/core/graphql/request_template.rs
@@ -9,6 +9,7 @@ use tailcall_hasher::TailcallHasher;
 use tracing::info;
 
 use crate::core::config::{GraphQLOperationType, KeyValue};
+use crate::core::graphql::escape_json;
 use crate::core::has_headers::HasHeaders;
 use crate::core::helpers::headers::MustacheHeaders;
 use crate::core::http::Method::POST;
@@ -132,7 +133,7 @@ impl RequestTemplate {
                     if value.is_empty() {
                         None
                     } else {
-                        Some(format!(r#"{}: {}"#, k, value.escape_default()))
+                        Some(format!(r#"{}: {}"#, k, escape_json(&value)))
                     }
                 })
                 .collect::<Vec<_>>()
@@ -152,7 +153,7 @@ impl RequestTemplate {
                 let operation = operation.to_mut();
 
                 operation.push(' ');
-                operation.push_str(&directives.escape_default().to_string());
+                operation.push_str(&escape_json(&directives));
             }
         }
 
diff --git a/src/core/ir/eval_context.rs b/src/core/ir/eval_context.rs
index 89c03d8..b30b1b5 100644
--- a/src/core/ir/eval_context.rs
+++ b/src/core/ir/eval_context.rs
@@ -7,6 +7,7 @@ use http::header::HeaderMap;
 
 use super::{GraphQLOperationContext, RelatedFields, ResolverContextLike, SelectionField};
 use crate::core::document::print_directives;
+use crate::core::graphql::escape_json;
 use crate::core::http::RequestContext;
 
 // TODO: rename to ResolverContext
@@ -158,7 +159,7 @@ fn format_selection_field(
 
         if !directives.is_empty() {
             output.push(' ');
-            output.push_str(&directives.escape_default().to_string());
+            output.push_str(&escape_json(&directives));
         }
     }
 
@@ -183,7 +184,7 @@ fn format_selection_field_arguments(field: &SelectionField) -> Cow<'static, str>
         .collect::<Vec<_>>()
         .join(",");
 
-    Cow::Owned(format!("({})", args.escape_default()))
+    Cow::Owned(format!("({})", escape_json(&args)))
 }
 
 // TODO: this is the same code as src/json/json_like.rs::get_path
diff --git a/src/core/jit/transform/graphql.rs b/src/core/jit/transform/graphql.rs
index d15b9f3..2765293 100644
--- a/src/core/jit/transform/graphql.rs
+++ b/src/core/jit/transform/graphql.rs
@@ -7,6 +7,7 @@ use std::marker::PhantomData;
 use tailcall_valid::Valid;
 
 use crate::core::document::print_directives;
+use crate::core::graphql::escape_json;
 use crate::core::ir::model::{IO, IR};
 use crate::core::jit::{Field, OperationPlan};
 use crate::core::json::JsonLikeOwned;
@@ -130,7 +131,7 @@ fn format_selection_field<A: Display + JsonLikeOwned>(
 
         if !directives.is_empty() {
             output.push(' ');
-            output.push_str(&directives.escape_default().to_string());
+            output.push_str(&escape_json(&directives));
         }
     }
 
@@ -154,6 +155,6 @@ fn format_selection_field_arguments<A: Display>(field: &Field<A>) -> Cow<'static
     if arguments.is_empty() {
         Cow::Borrowed("")
     } else {
-        Cow::Owned(format!("({})", arguments.escape_default()))
+        Cow::Owned(format!("({})", escape_json(&arguments)))
     }
 }
-- 
2.43.0


From f4ed774dd9021710ecb4a3ceb0fd7a36459a91ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 017/122] fix: read upstream bodies whose object keys contain
 escapes

Keys with escape sequences can't be borrowed from the body, so a valid
JSON body with such a key was refused.
---
 src/core/http/response.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/http/response.rs b/src/core/http/response.rs
index bfbbb22..a1c47f4 100644
--- a/src/core/http/response.rs
+++ b/src/core/http/response.rs
@@ -82,8 +82,15 @@ impl Response<Bytes> {
         // Note: We convert the body to a serde_json_borrow::Value for better
         // performance. Warning: Do not change this to direct conversion to `T`
         // without benchmarking the performance impact.
-        let body: serde_json_borrow::Value = serde_json::from_slice(&self.body)?;
-        let body = T::from_value(body);
+        let body = match serde_json::from_slice::<serde_json_borrow::Value>(&self.body) {
+            Ok(body) => T::from_value(body),
+            // Object keys that contain escape sequences can't be borrowed from the
+            // body, such a body has to be read into an owned value.
+            Err(_) => {
+                let body: serde_json::Value = serde_json::from_slice(&self.body)?;
+                T::from_value(serde_json_borrow::Value::from(&body))
+            }
+        };
         Ok(Response { status: self.status, headers: self.headers, body })
     }
 
-- 
2.43.0


From 5f5f99c7b5bc8d94cdc401ef795f047314754aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 018/122] fix: keep positive numbers readable as u64 in cloned
 borrowed values

---
 src/core/json/borrow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/json/borrow.rs b/src/core/json/borrow.rs
index 60edafc..6106453 100644
--- a/src/core/json/borrow.rs
+++ b/src/core/json/borrow.rs
@@ -66,9 +66,9 @@ impl<'ctx> JsonLike<'ctx> for Value<'ctx> {
             JsonPrimitive::Bool(x) => Value::Bool(x),
             JsonPrimitive::Str(s) => Value::Str(s.into()),
             JsonPrimitive::Number(n) => {
-                if let Some(n) = n.as_i64() {
+                if let Some(n) = n.as_u64() {
                     Value::Number(n.into())
-                } else if let Some(n) = n.as_u64() {
+                } else if let Some(n) = n.as_i64() {
                     Value::Number(n.into())
                 } else if let Some(n) = n.as_f64() {
                     Value::Number(n.into())
-- 
2.43.0


From 1a05293aee8eb824d319839fa3b784def1d6188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 019/122] fix: keep the error path in step with the field being
 resolved

Returning early from a field left its name in the path, so errors of the
fields after it were reported under a wrong path.
---
 src/core/jit/synth/synth.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/core/jit/synth/synth.rs b/src/core/jit/synth/synth.rs
index 221fa95..1cf34b1 100644
--- a/src/core/jit/synth/synth.rs
+++ b/src/core/jit/synth/synth.rs
@@ -69,8 +69,25 @@ where
         Output: JsonLike<'a>,
     {
         path.push(PathSegment::Field(Cow::Borrowed(&node.output_name)));
+        let result = self.iter_field(node, value, data_path, path, root_name);
+        path.pop();
+        result
+    }
 
-        let result = match self.store.get(&node.id) {
+    #[allow(clippy::too_many_arguments)]
+    #[inline(always)]
+    fn iter_field<Output>(
+        &'a self,
+        node: &'a Field<Value>,
+        value: Option<&'a Value>,
+        data_path: &DataPath,
+        path: &mut Vec<PathSegment<'a>>,
+        root_name: Option<&'a str>,
+    ) -> Result<Output, Positioned<Error>>
+    where
+        Output: JsonLike<'a>,
+    {
+        match self.store.get(&node.id) {
             Some(value) => {
                 let mut value = value.as_ref().map_err(Clone::clone)?;
 
@@ -91,10 +108,7 @@ where
                 Some(result) => self.iter_inner(node, result, data_path, path),
                 None => self.node_nullable_guard(node, path, root_name),
             },
-        };
-
-        path.pop();
-        result
+        }
     }
 
     /// This guard ensures to return Null value only if node type permits it, in
-- 
2.43.0


From 2470bb7c3b8909af62b0efc784f487b1e360d2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 020/122] fix: validate the items of scalar and enum lists and
 their nullability

A list of a custom scalar was validated as if the list was the scalar, so
it was always refused; null items of enum lists were refused, null items
of non-null scalar lists were not, and a null list of non-null items was
refused although the list is nullable.
---
 src/core/jit/synth/synth.rs | 63 ++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/src/core/jit/synth/synth.rs b/src/core/jit/synth/synth.rs
index 1cf34b1..56bcfe6 100644
--- a/src/core/jit/synth/synth.rs
+++ b/src/core/jit/synth/synth.rs
@@ -4,6 +4,7 @@ use crate::core::jit::model::{Field, OperationPlan, Variables};
 use crate::core::jit::store::{DataPath, Store};
 use crate::core::jit::{Error, PathSegment, Positioned, ValidationError};
 use crate::core::json::{JsonLike, JsonObjectLike};
+use crate::core::Type;
 
 type ValueStore<Value> = Store<Result<Value, Positioned<Error>>>;
 
@@ -102,10 +103,10 @@ where
                 if node.type_of.is_list() != value.as_array().is_some() {
                     return self.node_nullable_guard(node, path, None);
                 }
-                self.iter_inner(node, value, data_path, path)
+                self.iter_inner(node, &node.type_of, value, data_path, path)
             }
             None => match value {
-                Some(result) => self.iter_inner(node, result, data_path, path),
+                Some(result) => self.iter_inner(node, &node.type_of, result, data_path, path),
                 None => self.node_nullable_guard(node, path, root_name),
             },
         }
@@ -136,11 +137,29 @@ where
         }
     }
 
+    /// Returns the items of a list value together with their type. A list in
+    /// place of a single object is treated as a list of such objects.
+    #[inline(always)]
+    fn items<'t>(
+        &self,
+        node: &Field<Value>,
+        type_of: &'t Type,
+        value: &'a Value,
+    ) -> Option<(&'t Type, &'a Vec<Value>)> {
+        let arr = value.as_array()?;
+        match type_of {
+            Type::List { of_type, .. } => Some((of_type, arr)),
+            Type::Named { .. } if node.scalar.is_none() && !node.is_enum => Some((type_of, arr)),
+            Type::Named { .. } => None,
+        }
+    }
+
     #[allow(clippy::too_many_arguments)]
     #[inline(always)]
     fn iter_inner<Output>(
         &'a self,
         node: &'a Field<Value>,
+        type_of: &Type,
         value: &'a Value,
         data_path: &DataPath,
         path: &mut Vec<PathSegment<'a>>,
@@ -154,16 +173,21 @@ where
         }
 
         let eval_result = if value.is_null() {
-            // check the nullability of this type unwrapping list modifier
-            let is_nullable = match &node.type_of {
-                crate::core::Type::Named { non_null, .. } => !*non_null,
-                crate::core::Type::List { of_type, .. } => of_type.is_nullable(),
-            };
-            if is_nullable {
+            if type_of.is_nullable() {
                 Ok(Output::null())
             } else {
                 Err(ValidationError::ValueRequired.into())
             }
+        } else if let Some((of_type, arr)) = self.items(node, type_of, value) {
+            let mut ans = Vec::with_capacity(arr.len());
+            for (i, val) in arr.iter().enumerate() {
+                path.push(PathSegment::Index(i));
+                let val =
+                    self.iter_inner(node, of_type, val, &data_path.clone().with_index(i), path)?;
+                path.pop();
+                ans.push(val);
+            }
+            Ok(Output::array(ans))
         } else if node.scalar.is_some() {
             let scalar = node.scalar.as_ref().unwrap();
 
@@ -186,13 +210,7 @@ where
                     .unwrap_or(false)
             };
 
-            let is_valid_enum = if let Some(vec) = value.as_array() {
-                vec.iter().all(check_valid_enum)
-            } else {
-                check_valid_enum(value)
-            };
-
-            if is_valid_enum {
+            if check_valid_enum(value) {
                 Ok(Output::clone_from(value))
             } else {
                 Err(
@@ -201,8 +219,8 @@ where
                 )
             }
         } else {
-            match (value.as_array(), value.as_object()) {
-                (_, Some(obj)) => {
+            match value.as_object() {
+                Some(obj) => {
                     let mut fields = Vec::with_capacity(node.selection.len());
 
                     for child in node
@@ -224,17 +242,6 @@ where
 
                     Ok(Output::object(Output::JsonObject::from_vec(fields)))
                 }
-                (Some(arr), _) => {
-                    let mut ans = Vec::with_capacity(arr.len());
-                    for (i, val) in arr.iter().enumerate() {
-                        path.push(PathSegment::Index(i));
-                        let val =
-                            self.iter_inner(node, val, &data_path.clone().with_index(i), path)?;
-                        path.pop();
-                        ans.push(val);
-                    }
-                    Ok(Output::array(ans))
-                }
                 _ => Ok(Output::clone_from(value)),
             }
         };
-- 
2.43.0


From 1d4a852aece517d6d4aa6660d373d18736ec0880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 021/122] fix: register custom scalars that are only used by
 arguments

---
 src/core/blueprint/into_schema.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/blueprint/into_schema.rs b/src/core/blueprint/into_schema.rs
index 3428d0e..018d5ce 100644
--- a/src/core/blueprint/into_schema.rs
+++ b/src/core/blueprint/into_schema.rs
@@ -226,12 +226,18 @@ fn inject_custom_scalars(mut schema: SchemaBuilder, blueprint: &Blueprint) -> Sc
                 for field in interface_type_definition.fields {
                     let type_name = field.of_type.name();
                     schema = inject_scalar(schema, type_name);
+                    for arg in field.args {
+                        schema = inject_scalar(schema, arg.of_type.name());
+                    }
                 }
             }
             Definition::Object(object_type_definition) => {
                 for field in object_type_definition.fields {
                     let type_name = field.of_type.name();
                     schema = inject_scalar(schema, type_name);
+                    for arg in field.args {
+                        schema = inject_scalar(schema, arg.of_type.name());
+                    }
                 }
             }
             Definition::InputObject(input_object_type_definition) => {
-- 
2.43.0


From 3d70364bb84f520e674b9bdb86026938a7163807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:21 +0000
Subject: [PATCH 022/122] fix: an absent verifySSL doesn't override an explicit
 one on merge

---
 src/core/config/directives/upstream.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/config/directives/upstream.rs b/src/core/config/directives/upstream.rs
index 0beeb99..5c8ea85 100644
--- a/src/core/config/directives/upstream.rs
+++ b/src/core/config/directives/upstream.rs
@@ -136,11 +136,14 @@ pub struct Upstream {
     /// `Tailcall/1.0`
     pub user_agent: Option<String>,
 
+    // The default applies when the value is read, see `get_verify_ssl`. It's not
+    // part of the config, otherwise it'd override an explicit value on merge.
     #[serde(
-        default = "default_verify_ssl",
+        default,
         rename = "verifySSL",
         skip_serializing_if = "verify_ssl_is_default"
     )]
+    #[schemars(default = "default_verify_ssl")]
     /// A boolean value that determines whether to verify certificates.
     /// Setting this as `false` will make tailcall accept self-signed
     /// certificates. NOTE: use this *only* during development or testing.
-- 
2.43.0


From abd50b0ff450f119c4ee5d0a1ace3d1a2387dbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 023/122] fix: a REST endpoint doesn't match a path shorter
 than its own

---
 src/core/rest/path.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/rest/path.rs b/src/core/rest/path.rs
index 59fd608..4e4ca12 100644
--- a/src/core/rest/path.rs
+++ b/src/core/rest/path.rs
@@ -53,7 +53,9 @@ impl Path {
     pub fn matches(&self, path: &str) -> Option<Variables> {
         let mut variables = Variables::default();
         let mut req_segments = path.split('/').filter(|s| !s.is_empty());
-        for (segment, req_segment) in self.segments.iter().zip(&mut req_segments) {
+        for segment in self.segments.iter() {
+            // a request that ends before the path does isn't a match
+            let req_segment = req_segments.next()?;
             match segment {
                 Segment::Literal(segment) => {
                     if segment != req_segment {
-- 
2.43.0


From 3e2c0203fa94c8298c7c86a876534e47de17fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 024/122] fix: decode percent-encoded path segments of REST
 requests

---
 src/core/rest/path.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/rest/path.rs b/src/core/rest/path.rs
index 4e4ca12..aa03373 100644
--- a/src/core/rest/path.rs
+++ b/src/core/rest/path.rs
@@ -55,15 +55,15 @@ impl Path {
         let mut req_segments = path.split('/').filter(|s| !s.is_empty());
         for segment in self.segments.iter() {
             // a request that ends before the path does isn't a match
-            let req_segment = req_segments.next()?;
+            let req_segment = urlencoding::decode(req_segments.next()?).ok()?;
             match segment {
                 Segment::Literal(segment) => {
-                    if segment != req_segment {
+                    if segment != req_segment.as_ref() {
                         return None;
                     }
                 }
                 Segment::Param(t_var) => {
-                    let tpe = t_var.to_value(req_segment).ok()?;
+                    let tpe = t_var.to_value(&req_segment).ok()?;
                     variables.insert(Name::new(t_var.name()), tpe);
                 }
             }
-- 
2.43.0


From 4893e6ee927d833b570cabb1ec14b598e78d0183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 025/122] fix: try REST endpoints in the order of their
 declaration

---
 src/core/rest/endpoint.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/rest/endpoint.rs b/src/core/rest/endpoint.rs
index 2234a9f..a408f73 100644
--- a/src/core/rest/endpoint.rs
+++ b/src/core/rest/endpoint.rs
@@ -41,7 +41,12 @@ impl Endpoint {
         let doc = async_graphql::parser::parse_query(operations)?;
         let mut endpoints = Vec::new();
 
-        for (_, op) in doc.operations.iter() {
+        // the operations come in no particular order, while the first endpoint
+        // that matches a request is the one that serves it
+        let mut operations: Vec<_> = doc.operations.iter().map(|(_, op)| op).collect();
+        operations.sort_by_key(|op| op.pos);
+
+        for op in operations {
             let type_map = TypeMap::new(
                 op.node
                     .variable_definitions
-- 
2.43.0


From 5793d2efaf724bee6e58dc9c0b72d199b745ff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 026/122] fix: keep the query and the later /api segments of a
 REST request

---
 src/core/http/request_handler.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 562dc57..a6fe325 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -7,7 +7,7 @@ use async_graphql::ServerError;
 use hyper::header::{self, HeaderValue, CONTENT_TYPE};
 use hyper::http::request::Parts;
 use hyper::http::Method;
-use hyper::{Body, HeaderMap, Request, Response, StatusCode};
+use hyper::{Body, HeaderMap, Request, Response, StatusCode, Uri};
 use opentelemetry::trace::SpanKind;
 use opentelemetry_semantic_conventions::trace::{HTTP_REQUEST_METHOD, HTTP_ROUTE};
 use prometheus::{Encoder, ProtobufEncoder, TextEncoder, TEXT_FORMAT};
@@ -25,6 +25,7 @@ use crate::core::config::{PrometheusExporter, PrometheusFormat};
 use crate::core::jit::JITExecutor;
 
 pub const API_URL_PREFIX: &str = "/api";
+const API_URL_SEGMENT: &str = "/api/";
 
 fn prometheus_metrics(prometheus_exporter: &PrometheusExporter) -> Result<Response<Body>> {
     let metric_families = prometheus::default_registry().gather();
@@ -246,12 +247,26 @@ async fn handle_request_with_cors<T: DeserializeOwned + GraphQLRequestLike>(
     }
 }
 
+/// Drops the leading `/api` of a REST request, and keeps the rest of the path
+/// and the query as they are.
+fn strip_api_prefix(uri: &Uri) -> Result<Uri> {
+    let path = uri.path();
+    let path = path.strip_prefix(API_URL_PREFIX).unwrap_or(path);
+    let path = if path.is_empty() { "/" } else { path };
+    let uri = match uri.query() {
+        Some(query) => format!("{path}?{query}"),
+        None => path.to_string(),
+    };
+
+    Ok(uri.parse()?)
+}
+
 async fn handle_rest_apis(
     mut request: Request<Body>,
     app_ctx: Arc<AppContext>,
     req_counter: &mut RequestCounter,
 ) -> Result<Response<Body>> {
-    *request.uri_mut() = request.uri().path().replace(API_URL_PREFIX, "").parse()?;
+    *request.uri_mut() = strip_api_prefix(request.uri())?;
     let req_ctx = Arc::new(create_request_context(&request, app_ctx.as_ref()));
     if let Some(p_request) = app_ctx.endpoints.matches(&request) {
         let http_route = format!("{API_URL_PREFIX}{}", p_request.path.as_str());
@@ -290,7 +305,8 @@ async fn handle_request_inner<T: DeserializeOwned + GraphQLRequestLike>(
     app_ctx: Arc<AppContext>,
     req_counter: &mut RequestCounter,
 ) -> Result<Response<Body>> {
-    if req.uri().path().starts_with(API_URL_PREFIX) {
+    let path = req.uri().path();
+    if path == API_URL_PREFIX || path.starts_with(API_URL_SEGMENT) {
         return handle_rest_apis(req, app_ctx, req_counter).await;
     }
 
-- 
2.43.0


From 1d663b9f2561a20790855b571dd70f29635f3f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 027/122] fix: a REST parameter of type Float doesn't accept
 NaN and infinities

---
 src/core/rest/error.rs           | 5 +++++
 src/core/rest/typed_variables.rs | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/rest/error.rs b/src/core/rest/error.rs
index f0fde34..f8d6190 100644
--- a/src/core/rest/error.rs
+++ b/src/core/rest/error.rs
@@ -31,6 +31,11 @@ pub enum Error {
     #[error("Parse Float Error: {}", _0)]
     ParseFloatingPoint(ParseFloatError),
 
+    #[error("Not a finite number: {value}")]
+    #[debug("Not a finite number: {value}")]
+    #[from(skip)]
+    NotFinite { value: String },
+
     #[error("Parse Boolean Error: {}", _0)]
     ParseBoolean(ParseBoolError),
 
diff --git a/src/core/rest/typed_variables.rs b/src/core/rest/typed_variables.rs
index e488996..396343f 100644
--- a/src/core/rest/typed_variables.rs
+++ b/src/core/rest/typed_variables.rs
@@ -1,5 +1,5 @@
 use async_graphql::parser::types::{BaseType, Type};
-use async_graphql_value::ConstValue;
+use async_graphql_value::{ConstValue, Number};
 
 use super::{Error, Result};
 
@@ -20,7 +20,10 @@ impl N {
     fn to_value(&self, value: &str) -> Result<ConstValue> {
         Ok(match self {
             Self::Int => ConstValue::from(value.parse::<i64>()?),
-            Self::Float => ConstValue::from(value.parse::<f64>()?),
+            // `NaN` and infinities are no GraphQL values
+            Self::Float => Number::from_f64(value.parse()?)
+                .map(ConstValue::Number)
+                .ok_or_else(|| Error::NotFinite { value: value.to_string() })?,
         })
     }
 }
-- 
2.43.0


From 1e9ad2899bbbdd007cb4f2067a5bc06943ae011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 028/122] fix: literals of a REST path may be written
 percent-encoded

---
 src/core/rest/path.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/rest/path.rs b/src/core/rest/path.rs
index aa03373..e33f955 100644
--- a/src/core/rest/path.rs
+++ b/src/core/rest/path.rs
@@ -55,10 +55,11 @@ impl Path {
         let mut req_segments = path.split('/').filter(|s| !s.is_empty());
         for segment in self.segments.iter() {
             // a request that ends before the path does isn't a match
-            let req_segment = urlencoding::decode(req_segments.next()?).ok()?;
+            let raw_segment = req_segments.next()?;
+            let req_segment = urlencoding::decode(raw_segment).ok()?;
             match segment {
                 Segment::Literal(segment) => {
-                    if segment != req_segment.as_ref() {
+                    if segment != raw_segment && segment != req_segment.as_ref() {
                         return None;
                     }
                 }
-- 
2.43.0


From 7a36c179a0f080b0b506d81662e37a01b87d7a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 029/122] fix: the type of a REST query parameter is the one of
 its variable

---
 src/core/rest/query_params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/rest/query_params.rs b/src/core/rest/query_params.rs
index 1fbe743..b6a2c0c 100644
--- a/src/core/rest/query_params.rs
+++ b/src/core/rest/query_params.rs
@@ -24,7 +24,7 @@ impl QueryParams {
         let mut params = Vec::new();
         for (k, v) in map {
             let t = TypedVariable::try_from(
-                q.get(&k).ok_or(Error::UndefinedQueryParam(k.to_string()))?,
+                q.get(&v).ok_or(Error::UndefinedQueryParam(k.to_string()))?,
                 &v,
             )?;
             params.push((k, t));
-- 
2.43.0


From b0dcf99578162a1b49484d8e3dd50ff77bd7a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 030/122] hooks: verify

---
 src/core/verif.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/verif.rs b/src/core/verif.rs
index 7f54d84..2e51cbf 100644
--- a/src/core/verif.rs
+++ b/src/core/verif.rs
@@ -9,3 +9,8 @@ pub use crate::core::counter::{AtomicCounter, Count, Counter};
 pub use crate::core::lift::{CanLift, Lift};
 pub use crate::core::serde_value_ext::ValueExt;
 pub use crate::core::transform::TransformerOps;
+
+/// `Verify::verify` of an [AuthVerifier]; the trait itself is private.
+pub async fn verify(verifier: &AuthVerifier, ctx: &crate::core::http::RequestContext) -> Verification {
+    crate::core::auth::verify::Verify::verify(verifier, ctx).await
+}
-- 
2.43.0


From 62fec51755284b7edd3691a4796498c21d9c26c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 031/122] fix: constant answers that involve protected fields
 aren't kept for other requests

The answer of a constant query was cached unless every field of it was
protected, so a query that selected a protected field next to a public one
was answered from the cache without authentication afterwards.
---
 src/core/jit/transform/check_protected.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/jit/transform/check_protected.rs b/src/core/jit/transform/check_protected.rs
index c2c86a8..fd003df 100644
--- a/src/core/jit/transform/check_protected.rs
+++ b/src/core/jit/transform/check_protected.rs
@@ -14,7 +14,7 @@ impl<A> CheckProtected<A> {
     }
 }
 
-/// Checks if the IR will always evaluate to a Protected Value
+/// Checks if the evaluation of the IR may involve a Protected Value
 pub fn is_protected(ir: &IR) -> bool {
     match ir {
         IR::Dynamic(_) => false,
@@ -25,7 +25,7 @@ pub fn is_protected(ir: &IR) -> bool {
         IR::Protect(_, _) => true,
         IR::Map(map) => is_protected(&map.input),
         IR::Pipe(ir, ir1) => is_protected(ir) || is_protected(ir1),
-        IR::Merge(vec) => vec.iter().all(is_protected),
+        IR::Merge(vec) => vec.iter().any(is_protected),
         IR::Discriminate(_, ir) => is_protected(ir),
         IR::Entity(hash_map) => hash_map.values().any(is_protected),
         IR::Service(_) => false,
@@ -37,9 +37,9 @@ impl<A> Transform for CheckProtected<A> {
     type Error = Infallible;
 
     fn transform(&self, mut plan: Self::Value) -> Valid<Self::Value, Self::Error> {
-        plan.is_protected = plan.iter_dfs().all(|field| match field.ir {
+        plan.is_protected = plan.iter_dfs().any(|field| match field.ir {
             Some(ref ir) => is_protected(ir),
-            None => true,
+            None => false,
         });
 
         Valid::succeed(plan)
-- 
2.43.0


From 2c4c06f862dd06297d2957d2bf8fd59769fc6355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 032/122] fix: every @protected that applies to a field is
 enforced

A field that lists providers dropped the requirement of a type protected by
all providers, and the providers listed by a field's output type were
replaced by all providers.
---
 src/core/blueprint/operators/protected.rs | 40 +++++++++++++----------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/core/blueprint/operators/protected.rs b/src/core/blueprint/operators/protected.rs
index 6f80a44..608b5d4 100644
--- a/src/core/blueprint/operators/protected.rs
+++ b/src/core/blueprint/operators/protected.rs
@@ -38,25 +38,32 @@ pub fn update_protected<'a>(
 
                 // FIXME: add trace information in the error
 
+                // every `@protected` that applies has to be satisfied: with the listed
+                // providers, or with all of them if it lists none
                 let mut protection = Vec::new();
+                let mut all_providers = false;
 
-                protection.extend(
-                    type_
-                        .protected
-                        .clone()
-                        .and_then(|protect| protect.id)
-                        .unwrap_or_default(),
-                );
+                for protected in [&type_.protected, &field.protected].into_iter().flatten() {
+                    match &protected.id {
+                        Some(ids) if !ids.is_empty() => protection.extend(ids.iter()),
+                        _ => all_providers = true,
+                    }
+                }
 
-                protection.extend(
-                    field
-                        .protected
-                        .clone()
-                        .and_then(|protect| protect.id)
-                        .unwrap_or_default(),
-                );
+                // unknown providers of the output type are reported for its own fields
+                if let Some(protected) = config
+                    .find_type(field.type_of.name())
+                    .and_then(|type_| type_.protected.as_ref())
+                {
+                    match &protected.id {
+                        Some(ids) if !ids.is_empty() => {
+                            protection.extend(ids.iter().filter(|id| providers.contains_key(*id)))
+                        }
+                        _ => all_providers = true,
+                    }
+                }
 
-                Valid::from_iter(protection.iter(), |id| {
+                Valid::from_iter(protection, |id| {
                     if let Some(provider) = providers.get(id) {
                         Valid::succeed(Auth::Provider(provider.clone()))
                     } else {
@@ -66,8 +73,7 @@ pub fn update_protected<'a>(
                 .map(|provider| {
                     let mut auth = provider.into_iter().reduce(|left, right| left.and(right));
 
-                    // If no protection is defined, use all providers
-                    if auth.is_none() {
+                    if all_providers || auth.is_none() {
                         auth = Auth::from_config(config);
                     }
 
-- 
2.43.0


From a7198df9140effb1f50199b71960615e7111a8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 033/122] fix: an aliased field without a resolver keeps its
 value for the fields below it

---
 src/core/jit/exec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/jit/exec.rs b/src/core/jit/exec.rs
index c3155aa..0dcd772 100644
--- a/src/core/jit/exec.rs
+++ b/src/core/jit/exec.rs
@@ -117,7 +117,7 @@ where
             let value = match ctx.value() {
                 Some(value) => value.map_ref(&mut |value| {
                     Ok(value
-                        .get_key(&field.output_name)
+                        .get_key(&field.name)
                         .cloned()
                         // in case there is no value we still put some dumb empty value anyway
                         // to force execution of the nested fields even when parent object is not
-- 
2.43.0


From 8bac9f156511565f3c5ecd1959aab8328dcfdf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 034/122] fix: an error cause without a message doesn't panic
 when printed

---
 src/core/errata.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/errata.rs b/src/core/errata.rs
index 6864abf..4bd6a0f 100644
--- a/src/core/errata.rs
+++ b/src/core/errata.rs
@@ -79,10 +79,8 @@ fn margin(str: &str, margin: usize) -> String {
 }
 
 fn bullet(str: &str) -> String {
-    let mut chars = margin(str, 2).chars().collect::<Vec<char>>();
-    chars[0] = '•';
-    chars[1] = ' ';
-    chars.into_iter().collect::<String>()
+    let indented = margin(str, 2);
+    format!("• {}", indented.strip_prefix("  ").unwrap_or(&indented))
 }
 
 impl Display for Errata {
-- 
2.43.0


From fe15b6e1cc2d4ba3400dfe07237dcf5e0d7463fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 035/122] fix: descriptions of validation errors survive the
 conversion to Errata

---
 src/core/errata.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/errata.rs b/src/core/errata.rs
index 4bd6a0f..15a1b81 100644
--- a/src/core/errata.rs
+++ b/src/core/errata.rs
@@ -216,7 +216,12 @@ impl From<ValidationError<String>> for Errata {
                 .as_vec()
                 .iter()
                 .map(|cause| {
-                    Errata::new(cause.message.as_str()).trace(Vec::from(cause.trace.clone()))
+                    let mut err =
+                        Errata::new(cause.message.as_str()).trace(Vec::from(cause.trace.clone()));
+                    if let Some(description) = &cause.description {
+                        err = err.description(description.to_owned());
+                    }
+                    err
                 })
                 .collect(),
         )
-- 
2.43.0


From bd3556e00b1e58ff40beb895890ff99b12280abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 036/122] fix: Errata::color applies to causes at every depth

---
 src/core/errata.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/errata.rs b/src/core/errata.rs
index 15a1b81..bfb2a1c 100644
--- a/src/core/errata.rs
+++ b/src/core/errata.rs
@@ -63,9 +63,11 @@ impl Errata {
 
     pub fn color(mut self, color: bool) -> Self {
         self.color = color;
-        for inner in self.caused_by.iter_mut() {
-            inner.color = color;
-        }
+        self.caused_by = self
+            .caused_by
+            .into_iter()
+            .map(|inner| inner.color(color))
+            .collect();
         self
     }
 }
-- 
2.43.0


From 40d06e7c4544a8f8313fdc2a8c3e40128ea8aed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 037/122] fix: converting an error to Errata keeps its context
 and every cause

---
 src/core/errata.rs | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/core/errata.rs b/src/core/errata.rs
index bfb2a1c..fd413d5 100644
--- a/src/core/errata.rs
+++ b/src/core/errata.rs
@@ -152,26 +152,8 @@ impl From<hyper::Error> for Errata {
 
 impl From<anyhow::Error> for Errata {
     fn from(error: anyhow::Error) -> Self {
-        // Convert other errors to Errata
-        let cli_error = match error.downcast::<Errata>() {
-            Ok(cli_error) => cli_error,
-            Err(error) => {
-                // Convert other errors to Errata
-                let cli_error = match error.downcast::<ValidationError<String>>() {
-                    Ok(validation_error) => Errata::from(validation_error),
-                    Err(error) => {
-                        let sources = error
-                            .source()
-                            .map(|error| vec![Errata::new(error.to_string().as_str())])
-                            .unwrap_or_default();
-
-                        Errata::new(&error.to_string()).caused_by(sources)
-                    }
-                };
-                cli_error
-            }
-        };
-        cli_error
+        let error: &(dyn std::error::Error + 'static) = error.as_ref();
+        from_chain(error)
     }
 }
 
@@ -232,7 +214,19 @@ impl From<ValidationError<String>> for Errata {
 
 impl From<Box<dyn std::error::Error>> for Errata {
     fn from(value: Box<dyn std::error::Error>) -> Self {
-        Errata::new(value.to_string().as_str())
+        from_chain(value.as_ref())
+    }
+}
+
+/// Converts an error together with everything that caused it
+fn from_chain(error: &(dyn std::error::Error + 'static)) -> Errata {
+    if let Some(error) = error.downcast_ref::<Errata>() {
+        error.clone()
+    } else if let Some(error) = error.downcast_ref::<ValidationError<String>>() {
+        Errata::from(error.clone())
+    } else {
+        let causes = error.source().map(from_chain).into_iter().collect();
+        Errata::new(&error.to_string()).caused_by(causes)
     }
 }
 
-- 
2.43.0


From cfe349c062a0a5d1d793de06271618f3c22877c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 038/122] fix: the message of a worker error is reported

---
 src/core/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/error.rs b/src/core/error.rs
index 4a7170e..b477b9b 100644
--- a/src/core/error.rs
+++ b/src/core/error.rs
@@ -4,7 +4,7 @@ use super::worker;
 
 #[derive(From, thiserror::Error, Debug)]
 pub enum Error {
-    #[error("Worker Error")]
+    #[error("Worker Error: {0}")]
     Worker(worker::Error),
 }
 
-- 
2.43.0


From a988b803eb8498625233d00dd0b4d691ffdbfcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 039/122] fix: a constant or grpc resolver on a recursive type
 no longer overflows the stack

---
 src/core/blueprint/from_config.rs |  22 +++++-
 src/core/json/json_schema.rs      | 127 +++++++++++++++++-------------
 2 files changed, 94 insertions(+), 55 deletions(-)

diff --git a/src/core/blueprint/from_config.rs b/src/core/blueprint/from_config.rs
index fb95066..6bf14c6 100644
--- a/src/core/blueprint/from_config.rs
+++ b/src/core/blueprint/from_config.rs
@@ -80,18 +80,34 @@ pub fn to_json_schema_for_args(args: &IndexMap<String, Arg>, config: &Config) ->
     JsonSchema::Obj(schema_fields)
 }
 pub fn to_json_schema(type_of: &Type, config: &Config) -> JsonSchema {
+    to_json_schema_nested(type_of, config, &mut Vec::new())
+}
+
+/// `parents` holds the names of the types that are being converted: a type that
+/// contains itself can't be described completely and ends with `Any`.
+fn to_json_schema_nested<'a>(
+    type_of: &'a Type,
+    config: &'a Config,
+    parents: &mut Vec<&'a str>,
+) -> JsonSchema {
     let json_schema = match type_of {
+        Type::Named { name, .. } if parents.contains(&name.as_str()) => JsonSchema::Any,
         Type::Named { name, .. } => {
             let type_ = config.find_type(name);
             let type_enum_ = config.find_enum(name);
 
             if let Some(type_) = type_ {
                 let mut schema_fields = BTreeMap::new();
+                parents.push(name);
                 for (name, field) in type_.fields.iter() {
                     if field.resolvers.is_empty() {
-                        schema_fields.insert(name.clone(), to_json_schema(&field.type_of, config));
+                        schema_fields.insert(
+                            name.clone(),
+                            to_json_schema_nested(&field.type_of, config, parents),
+                        );
                     }
                 }
+                parents.pop();
                 JsonSchema::Obj(schema_fields)
             } else if let Some(type_enum_) = type_enum_ {
                 JsonSchema::Enum(
@@ -105,7 +121,9 @@ pub fn to_json_schema(type_of: &Type, config: &Config) -> JsonSchema {
                 JsonSchema::from_scalar_type(name)
             }
         }
-        Type::List { of_type, .. } => JsonSchema::Arr(Box::new(to_json_schema(of_type, config))),
+        Type::List { of_type, .. } => {
+            JsonSchema::Arr(Box::new(to_json_schema_nested(of_type, config, parents)))
+        }
     };
 
     if type_of.is_nullable() {
diff --git a/src/core/json/json_schema.rs b/src/core/json/json_schema.rs
index d07d5f2..bf24a21 100644
--- a/src/core/json/json_schema.rs
+++ b/src/core/json/json_schema.rs
@@ -243,28 +243,42 @@ impl TryFrom<&MessageDescriptor> for JsonSchema {
     type Error = tailcall_valid::ValidationError<String>;
 
     fn try_from(value: &MessageDescriptor) -> Result<Self, Self::Error> {
-        if value.is_map_entry() {
-            // we encode protobuf's map as JSON scalar
-            return Ok(JsonSchema::Any);
-        }
+        from_message(value, &mut Vec::new())
+    }
+}
 
-        let mut map = BTreeMap::new();
-        let fields = value.fields();
+/// `parents` holds the names of the messages that are being converted: a
+/// message that contains itself can't be described completely and ends with
+/// `Any`.
+fn from_message(
+    value: &MessageDescriptor,
+    parents: &mut Vec<String>,
+) -> Result<JsonSchema, tailcall_valid::ValidationError<String>> {
+    if value.is_map_entry() || parents.iter().any(|name| name == value.full_name()) {
+        // we encode protobuf's map as JSON scalar
+        return Ok(JsonSchema::Any);
+    }
 
-        for field in fields {
-            let field_schema = JsonSchema::try_from(&field)?;
+    parents.push(value.full_name().to_string());
 
-            // the snake_case for field names is automatically converted to camelCase
-            // by prost on serde serialize/deserealize and in graphql type name should be in
-            // camelCase as well, so convert field.name to camelCase here
-            map.insert(field.name().to_case(Case::Camel), field_schema);
-        }
+    let mut map = BTreeMap::new();
+    let fields = value.fields();
 
-        if map.is_empty() {
-            Ok(JsonSchema::Empty)
-        } else {
-            Ok(JsonSchema::Obj(map))
-        }
+    for field in fields {
+        let field_schema = from_field(&field, parents)?;
+
+        // the snake_case for field names is automatically converted to camelCase
+        // by prost on serde serialize/deserealize and in graphql type name should be in
+        // camelCase as well, so convert field.name to camelCase here
+        map.insert(field.name().to_case(Case::Camel), field_schema);
+    }
+
+    parents.pop();
+
+    if map.is_empty() {
+        Ok(JsonSchema::Empty)
+    } else {
+        Ok(JsonSchema::Obj(map))
     }
 }
 
@@ -284,44 +298,51 @@ impl TryFrom<&FieldDescriptor> for JsonSchema {
     type Error = tailcall_valid::ValidationError<String>;
 
     fn try_from(value: &FieldDescriptor) -> Result<Self, Self::Error> {
-        let field_schema = match value.kind() {
-            Kind::Double => JsonSchema::Num,
-            Kind::Float => JsonSchema::Num,
-            Kind::Int32 => JsonSchema::Num,
-            Kind::Int64 => JsonSchema::Num,
-            Kind::Uint32 => JsonSchema::Num,
-            Kind::Uint64 => JsonSchema::Num,
-            Kind::Sint32 => JsonSchema::Num,
-            Kind::Sint64 => JsonSchema::Num,
-            Kind::Fixed32 => JsonSchema::Num,
-            Kind::Fixed64 => JsonSchema::Num,
-            Kind::Sfixed32 => JsonSchema::Num,
-            Kind::Sfixed64 => JsonSchema::Num,
-            Kind::Bool => JsonSchema::Bool,
-            Kind::String => JsonSchema::Str,
-            Kind::Bytes => JsonSchema::Str,
-            Kind::Message(msg) => JsonSchema::try_from(&msg)?,
-            Kind::Enum(enm) => JsonSchema::try_from(&enm)?,
-        };
-        let field_schema = if value
-            .cardinality()
-            .eq(&prost_reflect::Cardinality::Optional)
-        {
-            JsonSchema::Opt(Box::new(field_schema))
-        } else {
-            field_schema
-        };
-        let field_schema = if value.is_list() {
-            // if value is of type list then we treat it as optional.
-            JsonSchema::Opt(Box::new(JsonSchema::Arr(Box::new(field_schema))))
-        } else {
-            field_schema
-        };
-
-        Ok(field_schema)
+        from_field(value, &mut Vec::new())
     }
 }
 
+fn from_field(
+    value: &FieldDescriptor,
+    parents: &mut Vec<String>,
+) -> Result<JsonSchema, tailcall_valid::ValidationError<String>> {
+    let field_schema = match value.kind() {
+        Kind::Double => JsonSchema::Num,
+        Kind::Float => JsonSchema::Num,
+        Kind::Int32 => JsonSchema::Num,
+        Kind::Int64 => JsonSchema::Num,
+        Kind::Uint32 => JsonSchema::Num,
+        Kind::Uint64 => JsonSchema::Num,
+        Kind::Sint32 => JsonSchema::Num,
+        Kind::Sint64 => JsonSchema::Num,
+        Kind::Fixed32 => JsonSchema::Num,
+        Kind::Fixed64 => JsonSchema::Num,
+        Kind::Sfixed32 => JsonSchema::Num,
+        Kind::Sfixed64 => JsonSchema::Num,
+        Kind::Bool => JsonSchema::Bool,
+        Kind::String => JsonSchema::Str,
+        Kind::Bytes => JsonSchema::Str,
+        Kind::Message(msg) => from_message(&msg, parents)?,
+        Kind::Enum(enm) => JsonSchema::try_from(&enm)?,
+    };
+    let field_schema = if value
+        .cardinality()
+        .eq(&prost_reflect::Cardinality::Optional)
+    {
+        JsonSchema::Opt(Box::new(field_schema))
+    } else {
+        field_schema
+    };
+    let field_schema = if value.is_list() {
+        // if value is of type list then we treat it as optional.
+        JsonSchema::Opt(Box::new(JsonSchema::Arr(Box::new(field_schema))))
+    } else {
+        field_schema
+    };
+
+    Ok(field_schema)
+}
+
 #[cfg(test)]
 mod tests {
     use std::collections::{BTreeMap, BTreeSet};
-- 
2.43.0


From 6ac8270d9987d97a698c8effad24747eccfbad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 040/122] fix: @call steps that lead back to the calling field
 are reported instead of overflowing the stack

---
 src/core/blueprint/error.rs          |  3 ++
 src/core/blueprint/operators/call.rs | 53 ++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/src/core/blueprint/error.rs b/src/core/blueprint/error.rs
index 4d4dd63..7a2f4fa 100644
--- a/src/core/blueprint/error.rs
+++ b/src/core/blueprint/error.rs
@@ -31,6 +31,9 @@ pub enum BlueprintError {
     #[error("Result resolver can't be empty")]
     ResultResolverCanNotBeEmpty,
 
+    #[error("steps of @call lead back to the field itself: {0}")]
+    CallIsCyclic(String),
+
     #[error("call must have query or mutation")]
     CallMustHaveQueryOrMutation,
 
diff --git a/src/core/blueprint/operators/call.rs b/src/core/blueprint/operators/call.rs
index 8d543d8..1fec941 100644
--- a/src/core/blueprint/operators/call.rs
+++ b/src/core/blueprint/operators/call.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use serde_json::Value;
 use tailcall_valid::{Valid, Validator};
 
@@ -12,6 +14,10 @@ pub fn compile_call(
     operation_type: &GraphQLOperationType,
     object_name: &str,
 ) -> Valid<IR, BlueprintError> {
+    if let Some(cycle) = find_cycle(config_module, call, &mut Vec::new(), &mut HashSet::new()) {
+        return Valid::fail(BlueprintError::CallIsCyclic(cycle));
+    }
+
     Valid::from_iter(call.steps.iter(), |step| {
         get_field_and_field_name(step, config_module).and_then(|(field, field_name, type_of)| {
             let args = step.args.iter();
@@ -93,6 +99,53 @@ pub fn compile_call(
     })
 }
 
+/// Follows the steps of the call, and of the calls these lead to, and describes
+/// the first one that leads back to a field it has come through.
+fn find_cycle(
+    config_module: &ConfigModule,
+    call: &config::Call,
+    path: &mut Vec<(String, String)>,
+    checked: &mut HashSet<(String, String)>,
+) -> Option<String> {
+    for target in call.steps.iter().filter_map(get_type_and_field) {
+        let start = path.iter().position(|visited| *visited == target);
+        if let Some(start) = start {
+            return Some(
+                path[start..]
+                    .iter()
+                    .chain([&target])
+                    .map(|(type_name, field_name)| format!("{type_name}.{field_name}"))
+                    .collect::<Vec<_>>()
+                    .join(" -> "),
+            );
+        }
+
+        if !checked.insert(target.clone()) {
+            continue;
+        }
+
+        let field = config_module
+            .config()
+            .find_type(&target.0)
+            .and_then(|type_of| type_of.fields.get(&target.1));
+
+        if let Some(field) = field {
+            path.push(target);
+            for resolver in field.resolvers.iter() {
+                if let config::Resolver::Call(call) = resolver {
+                    let cycle = find_cycle(config_module, call, path, checked);
+                    if cycle.is_some() {
+                        return cycle;
+                    }
+                }
+            }
+            path.pop();
+        }
+    }
+
+    None
+}
+
 fn get_type_and_field(call: &config::Step) -> Option<(String, String)> {
     // TODO: type names for query and mutations should be inferred from the
     // config_module and should not be static values
-- 
2.43.0


From 4b56b4d7115be2173ba6a9bfcc659c8b6df66985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 041/122] fix: @addField with an empty path is reported instead
 of causing a panic

---
 src/core/blueprint/definitions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/blueprint/definitions.rs b/src/core/blueprint/definitions.rs
index a38b498..2b68689 100644
--- a/src/core/blueprint/definitions.rs
+++ b/src/core/blueprint/definitions.rs
@@ -458,7 +458,7 @@ fn to_fields(
         let source_field = type_of
             .fields
             .iter()
-            .find(|&(field_name, _)| *field_name == add_field.path[0]);
+            .find(|&(field_name, _)| Some(field_name) == add_field.path.first());
         match source_field {
             Some((_, source_field)) => to_field_definition(
                 source_field,
@@ -518,7 +518,7 @@ fn to_fields(
             })
             .trace(config::AddField::trace_name().as_str()),
             None => Valid::fail(BlueprintError::FieldNotFoundInPath(
-                add_field.path[0].clone(),
+                add_field.path.first().cloned().unwrap_or_default(),
                 add_field.path.join(","),
             )),
         }
-- 
2.43.0


From 3e9e0291f55b6e3fae9f9b6f3dc6543253c05313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 042/122] fix: interfaces that implement each other no longer
 overflow the stack

---
 src/core/config/config.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/config/config.rs b/src/core/config/config.rs
index 3cf91aa..adb7054 100644
--- a/src/core/config/config.rs
+++ b/src/core/config/config.rs
@@ -518,20 +518,29 @@ impl Config {
             types_set: &BTreeSet<String>,
             interfaces_types: &BTreeMap<String, BTreeSet<String>>,
             temp_interface_types: &mut BTreeMap<String, BTreeSet<String>>,
+            parents: &mut Vec<String>,
         ) -> BTreeSet<String> {
             let mut types_set_local = BTreeSet::new();
 
             for type_name in types_set.iter() {
+                if parents.contains(type_name) {
+                    // interfaces can't implement themselves
+                    continue;
+                }
+
                 match (
                     interfaces_types.get(type_name),
                     temp_interface_types.get(type_name),
                 ) {
                     (Some(types_set_inner), None) => {
+                        parents.push(type_name.to_string());
                         let types_set_inner = recursive_interface_type_merging(
                             types_set_inner,
                             interfaces_types,
                             temp_interface_types,
+                            parents,
                         );
+                        parents.pop();
                         temp_interface_types.insert(type_name.to_string(), types_set_inner.clone());
                         types_set_local = types_set_local.merge_right(types_set_inner);
                     }
@@ -554,6 +563,7 @@ impl Config {
                 types_set,
                 &interfaces_types,
                 &mut temp_interface_types,
+                &mut vec![interface_name.clone()],
             );
             interfaces_types_map.insert(interface_name.clone(), types_set);
         }
-- 
2.43.0


From 5cb73c34899a2fcb40fb0dcf3b623aeb658158fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 043/122] fix: a union that contains itself no longer overflows
 the stack

---
 src/core/config/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/config/config.rs b/src/core/config/config.rs
index adb7054..05e83b1 100644
--- a/src/core/config/config.rs
+++ b/src/core/config/config.rs
@@ -443,7 +443,9 @@ impl Config {
             types.insert(type_of.into());
 
             for type_ in union_.types.iter() {
-                types = self.find_connections(type_, types);
+                if !types.contains(type_) {
+                    types = self.find_connections(type_, types);
+                }
             }
         } else if let Some(type_) = self.find_type(type_of) {
             types.insert(type_of.into());
-- 
2.43.0


From 3d299b37124bb91baadc0753bdc830b6b7521c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 044/122] fix: a missing query root is reported once

---
 src/core/blueprint/schema.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/core/blueprint/schema.rs b/src/core/blueprint/schema.rs
index 3acf956..303fff6 100644
--- a/src/core/blueprint/schema.rs
+++ b/src/core/blueprint/schema.rs
@@ -83,13 +83,10 @@ pub fn to_schema<'a>() -> TryFoldConfig<'a, SchemaDefinition> {
     TryFoldConfig::new(|config, _| {
         validate_query(config)
             .and(validate_mutation(config))
-            .and(Valid::from_option(
-                config.schema.query.as_ref(),
-                BlueprintError::QueryRootIsMissing,
-            ))
             .zip(to_directive(config.server.to_directive()))
-            .map(|(query_type_name, directive)| SchemaDefinition {
-                query: query_type_name.to_owned(),
+            .map(|(_, directive)| SchemaDefinition {
+                // is present: checked by validate_query
+                query: config.schema.query.clone().unwrap_or_default(),
                 mutation: config.schema.mutation.clone(),
                 directives: vec![directive],
             })
-- 
2.43.0


From 9ed03b2a686d8f330161512942dbbd0f4396d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 045/122] fix: unknown references in the headers of @http are
 reported

---
 src/core/blueprint/mustache.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/blueprint/mustache.rs b/src/core/blueprint/mustache.rs
index 1718de2..e1e8dae 100644
--- a/src/core/blueprint/mustache.rs
+++ b/src/core/blueprint/mustache.rs
@@ -117,6 +117,14 @@ impl<'a> MustachePartsValidator<'a> {
                         self.validate(parts, true).trace("query")
                     })
                 }))
+                .and(Valid::from_iter(
+                    req_template.headers.clone(),
+                    |(_, mustache)| {
+                        Valid::from_iter(mustache.expression_segments(), |parts| {
+                            self.validate(parts, true).trace("headers")
+                        })
+                    },
+                ))
                 .unit()
                 .trace(config::Http::trace_name().as_str())
             }
-- 
2.43.0


From 05b4b9537e631b8b2db6e588b1a3069785ae9b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 046/122] fix: an invalid header of @graphQL or @grpc no longer
 hides the errors in its arguments or body

---
 src/core/blueprint/mustache.rs | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/core/blueprint/mustache.rs b/src/core/blueprint/mustache.rs
index e1e8dae..6575e6c 100644
--- a/src/core/blueprint/mustache.rs
+++ b/src/core/blueprint/mustache.rs
@@ -134,16 +134,14 @@ impl<'a> MustachePartsValidator<'a> {
                         self.validate(parts, true).trace("headers")
                     })
                 })
-                .and_then(|_| {
-                    if let Some(args) = &req_template.operation_arguments {
-                        Valid::from_iter(args, |(_, mustache)| {
-                            Valid::from_iter(mustache.expression_segments(), |parts| {
-                                self.validate(parts, true).trace("args")
-                            })
+                .and(if let Some(args) = &req_template.operation_arguments {
+                    Valid::from_iter(args, |(_, mustache)| {
+                        Valid::from_iter(mustache.expression_segments(), |parts| {
+                            self.validate(parts, true).trace("args")
                         })
-                    } else {
-                        Valid::succeed(Default::default())
-                    }
+                    })
+                } else {
+                    Valid::succeed(Default::default())
                 })
                 .unit()
                 .trace(config::GraphQL::trace_name().as_str())
@@ -160,19 +158,17 @@ impl<'a> MustachePartsValidator<'a> {
                     })
                     .unit(),
                 )
-                .and_then(|_| {
-                    if let Some(body) = &req_template.body {
-                        if let Some(mustache) = &body.mustache {
-                            Valid::from_iter(mustache.expression_segments(), |parts| {
-                                self.validate(parts, true).trace("body")
-                            })
-                        } else {
-                            // TODO: needs review
-                            Valid::succeed(Default::default())
-                        }
+                .and(if let Some(body) = &req_template.body {
+                    if let Some(mustache) = &body.mustache {
+                        Valid::from_iter(mustache.expression_segments(), |parts| {
+                            self.validate(parts, true).trace("body")
+                        })
                     } else {
+                        // TODO: needs review
                         Valid::succeed(Default::default())
                     }
+                } else {
+                    Valid::succeed(Default::default())
                 })
                 .unit()
                 .trace(config::Grpc::trace_name().as_str())
-- 
2.43.0


From 7b0440875ff810e3d0f0a1ebbf24d80666ee76c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 047/122] fix: a field name that @modify or @addField defines a
 second time is reported instead of causing a panic

---
 src/core/blueprint/definitions.rs | 30 ++++++++++++++++++++++++++----
 src/core/blueprint/error.rs       |  3 +++
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/core/blueprint/definitions.rs b/src/core/blueprint/definitions.rs
index 2b68689..11b0f39 100644
--- a/src/core/blueprint/definitions.rs
+++ b/src/core/blueprint/definitions.rs
@@ -527,10 +527,32 @@ fn to_fields(
     let added_fields = Valid::from_iter(type_of.added_fields.iter(), |added_field| {
         to_added_field(added_field, type_of)
     });
-    fields.zip(added_fields).map(|(mut fields, added_fields)| {
-        fields.extend(added_fields);
-        fields
-    })
+    let mut names = HashSet::new();
+    let repeated_names = type_of
+        .fields
+        .iter()
+        .filter(|(_, field)| !field.is_omitted())
+        .map(|(name, field)| {
+            field
+                .modify
+                .as_ref()
+                .and_then(|modify| modify.name.as_ref())
+                .unwrap_or(name)
+        })
+        .chain(type_of.added_fields.iter().map(|added| &added.name))
+        .filter(|name| !names.insert(*name))
+        .collect::<Vec<_>>();
+    let unique_names = Valid::from_iter(repeated_names, |name| {
+        Valid::<(), _>::fail(BlueprintError::FieldDefinedMoreThanOnce(name.clone())).trace(name)
+    });
+
+    fields
+        .zip(added_fields)
+        .zip(unique_names)
+        .map(|((mut fields, added_fields), _)| {
+            fields.extend(added_fields);
+            fields
+        })
 }
 
 #[allow(clippy::too_many_arguments)]
diff --git a/src/core/blueprint/error.rs b/src/core/blueprint/error.rs
index 7a2f4fa..3b393fd 100644
--- a/src/core/blueprint/error.rs
+++ b/src/core/blueprint/error.rs
@@ -85,6 +85,9 @@ pub enum BlueprintError {
     #[error("Undeclared type '{0}' was found")]
     UndeclaredTypeFound(String),
 
+    #[error("Field {0} is defined more than once")]
+    FieldDefinedMoreThanOnce(String),
+
     #[error("Cannot add field")]
     CannotAddField,
 
-- 
2.43.0


From 3d52547a7de1b05e556d603ec2418bd1272c8d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 048/122] fix: unknown types of arguments and union members are
 reported where they are, together with other errors

---
 src/core/blueprint/definitions.rs | 32 ++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/core/blueprint/definitions.rs b/src/core/blueprint/definitions.rs
index 11b0f39..87bd30e 100644
--- a/src/core/blueprint/definitions.rs
+++ b/src/core/blueprint/definitions.rs
@@ -381,15 +381,23 @@ pub fn update_cache_resolvers<'a>() -> TryFold<
     )
 }
 
-fn validate_field_type_exist(config: &Config, field: &Field) -> Valid<(), BlueprintError> {
-    let field_type = field.type_of.name();
-    if !scalar::Scalar::is_predefined(field_type) && !config.contains(field_type) {
-        Valid::fail(BlueprintError::UndeclaredTypeFound(field_type.clone()))
+fn validate_type_exist(config: &Config, type_name: &str) -> Valid<(), BlueprintError> {
+    if !scalar::Scalar::is_predefined(type_name) && !config.contains(type_name) {
+        Valid::fail(BlueprintError::UndeclaredTypeFound(type_name.to_string()))
     } else {
         Valid::succeed(())
     }
 }
 
+fn validate_field_type_exist(config: &Config, field: &Field) -> Valid<(), BlueprintError> {
+    validate_type_exist(config, field.type_of.name()).and(
+        Valid::from_iter(field.args.iter(), |(name, arg)| {
+            validate_type_exist(config, arg.type_of.name()).trace(name)
+        })
+        .unit(),
+    )
+}
+
 fn to_fields(
     object_name: &str,
     type_of: &config::Type,
@@ -601,15 +609,25 @@ pub fn to_definitions<'a>() -> TryFold<'a, ConfigModule, Vec<Definition>, Bluepr
                     })
             }
         })
-        .map(|mut types| {
-            types.extend(config_module.unions.iter().map(to_union_type_definition));
+        .fuse(Valid::from_iter(
+            config_module.unions.iter(),
+            |(name, union_)| {
+                Valid::from_iter(union_.types.iter(), |type_name| {
+                    validate_type_exist(config_module, type_name)
+                })
+                .trace(name)
+                .map_to(to_union_type_definition((name, union_)))
+            },
+        ))
+        .map(|(mut types, unions)| {
+            types.extend(unions);
             types
         })
         .fuse(Valid::from_iter(
             config_module.enums.iter(),
             |(name, type_)| {
                 if type_.variants.is_empty() {
-                    Valid::fail(BlueprintError::NoVariantsFoundForEnum)
+                    Valid::fail(BlueprintError::NoVariantsFoundForEnum).trace(name)
                 } else {
                     Valid::succeed(to_enum_type_definition((name, type_)))
                 }
-- 
2.43.0


From d688b4f377d4657cb65b9b8127f56c1b2f20cda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 049/122] hooks: default transformer

---
 src/core/verif.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/verif.rs b/src/core/verif.rs
index 2e51cbf..9bfff56 100644
--- a/src/core/verif.rs
+++ b/src/core/verif.rs
@@ -8,7 +8,7 @@ pub use crate::core::auth::Verification;
 pub use crate::core::counter::{AtomicCounter, Count, Counter};
 pub use crate::core::lift::{CanLift, Lift};
 pub use crate::core::serde_value_ext::ValueExt;
-pub use crate::core::transform::TransformerOps;
+pub use crate::core::transform::{default as transform_default, TransformerOps};
 
 /// `Verify::verify` of an [AuthVerifier]; the trait itself is private.
 pub async fn verify(verifier: &AuthVerifier, ctx: &crate::core::http::RequestContext) -> Verification {
-- 
2.43.0


From 271bf193d2bb85158be1d5312e40e5249291085e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 050/122] verif hooks: expose the configuration's raw directive
 codec

---
 src/core/config/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/config/mod.rs b/src/core/config/mod.rs
index 8236e78..aa0297b 100644
--- a/src/core/config/mod.rs
+++ b/src/core/config/mod.rs
@@ -27,3 +27,9 @@ mod resolver;
 mod source;
 pub mod transformer;
 mod url_query;
+
+#[cfg(verif_hooks)]
+pub mod verif {
+    pub use super::directive::{to_const_directive, to_directive};
+    pub use super::headers::Headers;
+}
-- 
2.43.0


From 5b2d2fc1520a949981602a9121953bb034d774eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 051/122] fix: print telemetry settings and @discriminate when
 writing a configuration as SDL

---
 src/core/config/into_document.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/config/into_document.rs b/src/core/config/into_document.rs
index 5df4f03..83af0d0 100644
--- a/src/core/config/into_document.rs
+++ b/src/core/config/into_document.rs
@@ -19,6 +19,10 @@ fn config_document(config: &Config) -> ServiceDocument {
         pos(config.upstream.to_directive()),
     ];
 
+    if config.telemetry != Default::default() {
+        directives.push(pos(config.telemetry.to_directive()));
+    }
+
     directives.extend(config.links.iter().map(|link| {
         let mut directive = link.to_directive();
 
@@ -221,6 +225,7 @@ fn field_directives(field: &crate::core::config::Field) -> Vec<Positioned<ConstD
         .chain(field.omit.as_ref().map(|d| pos(d.to_directive())))
         .chain(field.cache.as_ref().map(|d| pos(d.to_directive())))
         .chain(field.protected.as_ref().map(|d| pos(d.to_directive())))
+        .chain(field.discriminate.as_ref().map(|d| pos(d.to_directive())))
         .chain(into_directives(&field.directives))
         .collect()
 }
-- 
2.43.0


From 8d83077d4a227e0847184e11c3e95c7758afd9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 052/122] fix: an explicitly empty CORS vary list or prometheus
 path survives being written

---
 src/core/config/cors.rs                 | 5 +----
 src/core/config/directives/telemetry.rs | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/core/config/cors.rs b/src/core/config/cors.rs
index f68678e..72ac20e 100644
--- a/src/core/config/cors.rs
+++ b/src/core/config/cors.rs
@@ -54,10 +54,7 @@ pub struct Cors {
 
     /// A list of header names that indicate the values of which might cause the
     /// server's response to vary, potentially affecting caching.
-    #[serde(
-        default = "preflight_request_headers",
-        skip_serializing_if = "is_default"
-    )]
+    #[serde(default = "preflight_request_headers")]
     pub vary: Vec<String>,
 }
 
diff --git a/src/core/config/directives/telemetry.rs b/src/core/config/directives/telemetry.rs
index 108ff2a..b473a31 100644
--- a/src/core/config/directives/telemetry.rs
+++ b/src/core/config/directives/telemetry.rs
@@ -49,10 +49,7 @@ pub enum PrometheusFormat {
 #[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq, schemars::JsonSchema)]
 #[serde(rename_all = "camelCase")]
 pub struct PrometheusExporter {
-    #[serde(
-        default = "defaults::prometheus::path",
-        skip_serializing_if = "is_default"
-    )]
+    #[serde(default = "defaults::prometheus::path")]
     pub path: String,
     #[serde(default, skip_serializing_if = "is_default")]
     pub format: PrometheusFormat,
-- 
2.43.0


From 9c3d34b7662234100e330ae35df3dce0f3416e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 053/122] fix: read telemetry exporters written as plain maps
 in YAML

---
 src/core/config/config.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/config/config.rs b/src/core/config/config.rs
index 05e83b1..8090de0 100644
--- a/src/core/config/config.rs
+++ b/src/core/config/config.rs
@@ -327,7 +327,13 @@ impl RuntimeConfig {
     }
 
     pub fn from_yaml(yaml: &str) -> Result<Self> {
-        Ok(serde_yaml_ng::from_str(yaml)?)
+        serde_yaml_ng::from_str(yaml).or_else(|err| {
+            // variants may also be written as maps with a single key, as in JSON
+            serde_yaml_ng::with::singleton_map_recursive::deserialize(
+                serde_yaml_ng::Deserializer::from_str(yaml),
+            )
+            .map_err(|_| err.into())
+        })
     }
 
     pub fn from_source(source: Source, config: &str) -> Result<Self> {
-- 
2.43.0


From e566a60111f944ed91cacd543c523401ae6e7c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 054/122] fix: null arguments of directives survive being
 printed

---
 src/core/config/directives/grpc.rs      |  1 +
 src/core/config/directives/http.rs      |  1 +
 src/core/config/directives/telemetry.rs |  1 +
 src/core/document.rs                    | 12 +++---------
 4 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/core/config/directives/grpc.rs b/src/core/config/directives/grpc.rs
index 5a5b1b5..62b0d1c 100644
--- a/src/core/config/directives/grpc.rs
+++ b/src/core/config/directives/grpc.rs
@@ -67,6 +67,7 @@ pub struct Grpc {
     /// * EXAMPLE 2: if we have a call that returns `{ "foo": "bar", "fizz": {
     ///   "buzz": "eggs", ... }, ... }` we can use { foo: "{{.foo}}", buzz:
     ///   "{{.fizz.buzz}}" }`
+    #[serde(default, skip_serializing_if = "is_default")]
     pub select: Option<Value>,
 
     /// Specifies a JavaScript function to be executed after receiving the
diff --git a/src/core/config/directives/http.rs b/src/core/config/directives/http.rs
index 150f871..db5d847 100644
--- a/src/core/config/directives/http.rs
+++ b/src/core/config/directives/http.rs
@@ -101,6 +101,7 @@ pub struct Http {
     /// * EXAMPLE 2: if we have a call that returns `{ "foo": "bar", "fizz": {
     ///   "buzz": "eggs", ... }, ... }` we can use { foo: "{{.foo}}", buzz:
     ///   "{{.fizz.buzz}}" }`
+    #[serde(default, skip_serializing_if = "is_default")]
     pub select: Option<Value>,
 
     /// Specifies a JavaScript function to be executed after receiving the
diff --git a/src/core/config/directives/telemetry.rs b/src/core/config/directives/telemetry.rs
index b473a31..ec12ab0 100644
--- a/src/core/config/directives/telemetry.rs
+++ b/src/core/config/directives/telemetry.rs
@@ -84,6 +84,7 @@ pub enum TelemetryExporter {
 /// by Tailcall.  By leveraging this directive, developers gain access to
 /// valuable insights into the performance and behavior of their applications.
 pub struct Telemetry {
+    #[serde(default, skip_serializing_if = "is_default")]
     pub export: Option<TelemetryExporter>,
     /// The list of headers that will be sent as additional attributes to
     /// telemetry exporters Be careful about **leaking sensitive
diff --git a/src/core/document.rs b/src/core/document.rs
index 933c72c..b2614a3 100644
--- a/src/core/document.rs
+++ b/src/core/document.rs
@@ -434,15 +434,9 @@ impl<'a> From<&'a ConstDirective> for Directive<'a> {
             args: value
                 .arguments
                 .iter()
-                .filter_map(|(k, v)| {
-                    if v.node != async_graphql_value::ConstValue::Null {
-                        Some(Arg {
-                            name: Cow::Borrowed(k.node.as_str()),
-                            value: Cow::Owned(v.to_string()),
-                        })
-                    } else {
-                        None
-                    }
+                .map(|(k, v)| Arg {
+                    name: Cow::Borrowed(k.node.as_str()),
+                    value: Cow::Owned(v.to_string()),
                 })
                 .collect(),
         }
-- 
2.43.0


From c4be240c00fbfac65244939e34a040333c6292b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 055/122] fix: write every document, argument and default of a
 configuration to SDL

---
 src/core/config/into_document.rs |  47 +++++++------
 src/core/document.rs             | 113 +++++++++++++++++++++----------
 2 files changed, 104 insertions(+), 56 deletions(-)

diff --git a/src/core/config/into_document.rs b/src/core/config/into_document.rs
index 83af0d0..a8c05c1 100644
--- a/src/core/config/into_document.rs
+++ b/src/core/config/into_document.rs
@@ -80,7 +80,7 @@ fn config_document(config: &Config) -> ServiceDocument {
                         pos(FieldDefinition {
                             description: field.doc.clone().map(pos),
                             name: pos(Name::new(name.clone())),
-                            arguments: vec![],
+                            arguments: field_arguments(field),
                             ty: pos(type_of.into()),
                             directives,
                         })
@@ -123,28 +123,10 @@ fn config_document(config: &Config) -> ServiceDocument {
                         let type_of = &field.type_of;
                         let directives = field_directives(field);
 
-                        let args_map = field.args.clone();
-                        let args = args_map
-                            .iter()
-                            .map(|(name, arg)| {
-                                pos(async_graphql::parser::types::InputValueDefinition {
-                                    description: arg.doc.clone().map(pos),
-                                    name: pos(Name::new(name.clone())),
-                                    ty: pos((&arg.type_of).into()),
-
-                                    default_value: transform_default_value(
-                                        arg.default_value.clone(),
-                                    )
-                                    .map(pos),
-                                    directives: Vec::new(),
-                                })
-                            })
-                            .collect::<Vec<Positioned<InputValueDefinition>>>();
-
                         pos(async_graphql::parser::types::FieldDefinition {
                             description: field.doc.clone().map(pos),
                             name: pos(Name::new(name.clone())),
-                            arguments: args,
+                            arguments: field_arguments(field),
                             ty: pos(type_of.into()),
                             directives,
                         })
@@ -166,7 +148,7 @@ fn config_document(config: &Config) -> ServiceDocument {
     for (name, union) in config.unions.iter() {
         definitions.push(TypeSystemDefinition::Type(pos(TypeDefinition {
             extend: false,
-            description: None,
+            description: union.doc.clone().map(pos),
             name: pos(Name::new(name)),
             directives: Vec::new(),
             kind: TypeKind::Union(UnionType {
@@ -207,6 +189,29 @@ fn config_document(config: &Config) -> ServiceDocument {
     ServiceDocument { definitions }
 }
 
+fn field_arguments(
+    field: &crate::core::config::Field,
+) -> Vec<Positioned<async_graphql::parser::types::InputValueDefinition>> {
+    field
+        .args
+        .iter()
+        .map(|(name, arg)| {
+            pos(async_graphql::parser::types::InputValueDefinition {
+                description: arg.doc.clone().map(pos),
+                name: pos(Name::new(name.clone())),
+                ty: pos((&arg.type_of).into()),
+                default_value: transform_default_value(arg.default_value.clone()).map(pos),
+                directives: arg
+                    .modify
+                    .as_ref()
+                    .map(|modify| pos(modify.to_directive()))
+                    .into_iter()
+                    .collect(),
+            })
+        })
+        .collect()
+}
+
 fn into_directives(
     directives: &[super::directive::Directive],
 ) -> impl Iterator<Item = Positioned<ConstDirective>> + '_ {
diff --git a/src/core/document.rs b/src/core/document.rs
index b2614a3..54c6ae7 100644
--- a/src/core/document.rs
+++ b/src/core/document.rs
@@ -80,6 +80,54 @@ fn get_formatted_docs(docs: Option<String>, indent: usize) -> String {
     formatted_docs
 }
 
+/// Prints documentation so that reading it gives the same text: as a block
+/// string whenever a block string can hold it, as a plain string otherwise.
+fn print_doc(doc: Option<&Positioned<String>>, indent: usize) -> String {
+    let Some(doc) = doc.map(|doc| doc.node.as_str()) else {
+        return String::new();
+    };
+    let indent = " ".repeat(indent);
+    let is_blank = |line: &str| line.trim_matches([' ', '\t']).is_empty();
+    let lines: Vec<_> = doc.split('\n').collect();
+    let fits_block = !doc.contains("\"\"\"")
+        && !doc
+            .chars()
+            .any(|ch| ch.is_control() && ch != '\n' && ch != '\t')
+        && lines.first().is_some_and(|line| !is_blank(line))
+        && lines.last().is_some_and(|line| !is_blank(line))
+        && lines
+            .iter()
+            .any(|line| !line.is_empty() && !line.starts_with([' ', '\t']));
+
+    if !fits_block {
+        return format!("{}{}\n", indent, ConstValue::from(doc));
+    }
+
+    // following lines that are indented already are left as they are
+    let is_indented = lines[1..]
+        .iter()
+        .all(|line| line.is_empty() || line.starts_with(&indent));
+    let mut output = format!("{}\"\"\"\n", indent);
+    for (i, line) in lines.into_iter().enumerate() {
+        if i == 0 || !(line.is_empty() || is_indented) {
+            output.push_str(&indent);
+        }
+        output.push_str(line);
+        output.push('\n');
+    }
+    output.push_str(&indent);
+    output.push_str("\"\"\"\n");
+    output
+}
+
+/// Documentation of inputs is reflowed to lines of limited length.
+fn print_input_doc(doc: Option<&Positioned<String>>, indent: usize) -> String {
+    match doc {
+        Some(text) if text.node.contains("\"\"\"") => print_doc(doc, indent),
+        doc => get_formatted_docs(doc.map(|doc| doc.node.clone()), indent),
+    }
+}
+
 pub fn print_directives<'a, T>(directives: impl Iterator<Item = &'a T>) -> String
 where
     &'a T: Into<Directive<'a>> + 'a,
@@ -132,8 +180,10 @@ fn print_type_def(type_def: &TypeDefinition) -> String {
         }
         TypeKind::Union(union) => {
             let directives = print_pos_directives(&type_def.directives);
+            let doc = print_doc(type_def.description.as_ref(), 0);
             format!(
-                "union {}{} = {}\n",
+                "{}union {} {}= {}\n",
+                doc,
                 type_def.name.node,
                 directives,
                 union
@@ -146,7 +196,7 @@ fn print_type_def(type_def: &TypeDefinition) -> String {
         }
         TypeKind::InputObject(input) => {
             let directives = print_pos_directives(&type_def.directives);
-            let doc = get_formatted_docs(type_def.description.as_ref().map(|d| d.node.clone()), 0);
+            let doc = print_input_doc(type_def.description.as_ref(), 0);
             format!(
                 "{}input {} {}{{\n{}\n}}\n",
                 doc,
@@ -174,10 +224,14 @@ fn print_type_def(type_def: &TypeDefinition) -> String {
             } else {
                 String::new()
             };
+            let directives = print_pos_directives(&type_def.directives);
+            let doc = print_doc(type_def.description.as_ref(), 0);
             format!(
-                "interface {} {}{{\n{}\n}}\n",
+                "{}interface {} {}{}{{\n{}\n}}\n",
+                doc,
                 type_def.name.node,
                 implements,
+                directives,
                 interface
                     .fields
                     .iter()
@@ -201,9 +255,7 @@ fn print_type_def(type_def: &TypeDefinition) -> String {
                 String::new()
             };
             let directives = print_pos_directives(&type_def.directives);
-            let doc = type_def.description.as_ref().map_or(String::new(), |d| {
-                format!(r#"  """{}  {}{}  """{}"#, "\n", d.node, "\n", "\n")
-            });
+            let doc = print_doc(type_def.description.as_ref(), 2);
             format!(
                 "{}type {} {}{}{{\n{}\n}}\n",
                 doc,
@@ -231,12 +283,7 @@ fn print_type_def(type_def: &TypeDefinition) -> String {
                     .join("\n")
             );
 
-            if let Some(desc) = &type_def.description {
-                let ds = format!("\"\"\"\n{}\n\"\"\"\n", desc.node.as_str());
-                ds + &enum_def
-            } else {
-                enum_def
-            }
+            print_doc(type_def.description.as_ref(), 0) + &enum_def
         } // Handle other type kinds...
     }
 }
@@ -249,15 +296,7 @@ fn print_enum_value(value: &async_graphql::parser::types::EnumValueDefinition) -
         format!("  {} {}", value.value, directives_str)
     };
 
-    if let Some(desc) = &value.description {
-        format!(
-            "  \"\"\"\n  {}\n  \"\"\"\n{}",
-            desc.node.as_str(),
-            variant_def
-        )
-    } else {
-        variant_def
-    }
+    print_doc(value.description.as_ref(), 2) + &variant_def
 }
 
 fn print_field(field: &async_graphql::parser::types::FieldDefinition) -> String {
@@ -267,14 +306,20 @@ fn print_field(field: &async_graphql::parser::types::FieldDefinition) -> String
             .arguments
             .iter()
             .map(|arg| {
-                let nullable = if arg.node.ty.node.nullable { "" } else { "!" };
+                let doc = arg.node.description.as_ref().map_or(String::new(), |doc| {
+                    format!("{} ", ConstValue::from(doc.node.as_str()))
+                });
+                let directives = print_pos_directives(&arg.node.directives);
                 format!(
-                    "{}: {}{}{}",
+                    "{}{}: {}{} {}",
+                    doc,
                     arg.node.name,
-                    arg.node.ty.node.base,
-                    nullable,
-                    print_default_value(arg.node.default_value.as_ref())
+                    arg.node.ty.node,
+                    print_default_value(arg.node.default_value.as_ref()),
+                    directives
                 )
+                .trim_end()
+                .to_owned()
             })
             .collect::<Vec<String>>()
             .join(", ");
@@ -282,9 +327,7 @@ fn print_field(field: &async_graphql::parser::types::FieldDefinition) -> String
     } else {
         String::new()
     };
-    let doc = field.description.as_ref().map_or(String::new(), |d| {
-        format!(r#"  """{}  {}{}  """{}"#, "\n", d.node, "\n", "\n")
-    });
+    let doc = print_doc(field.description.as_ref(), 2);
     let node = &format!(
         "  {}{}: {} {}",
         field.name.node, args_str, field.ty.node, directives
@@ -301,15 +344,15 @@ fn print_default_value(value: Option<&Positioned<ConstValue>>) -> String {
 
 fn print_input_value(field: &async_graphql::parser::types::InputValueDefinition) -> String {
     let directives_str = print_pos_directives(&field.directives);
-    let doc = get_formatted_docs(field.description.as_ref().map(|d| d.node.clone()), 2);
-    format!(
-        "{}  {}: {}{}{}",
-        doc,
+    let doc = print_input_doc(field.description.as_ref(), 2);
+    let node = format!(
+        "  {}: {}{} {}",
         field.name.node,
         field.ty.node,
+        print_default_value(field.default_value.as_ref()),
         directives_str,
-        print_default_value(field.default_value.as_ref())
-    )
+    );
+    doc + node.trim_end()
 }
 
 pub fn print_directive<'a, T>(directive: &'a T) -> String
-- 
2.43.0


From 5496c98088bf338d62cdd67c6a46d2ebd8ecbb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 056/122] fix: an argument of unknown type is reported once

---
 src/core/blueprint/definitions.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/core/blueprint/definitions.rs b/src/core/blueprint/definitions.rs
index 87bd30e..614a6a0 100644
--- a/src/core/blueprint/definitions.rs
+++ b/src/core/blueprint/definitions.rs
@@ -390,12 +390,14 @@ fn validate_type_exist(config: &Config, type_name: &str) -> Valid<(), BlueprintE
 }
 
 fn validate_field_type_exist(config: &Config, field: &Field) -> Valid<(), BlueprintError> {
-    validate_type_exist(config, field.type_of.name()).and(
-        Valid::from_iter(field.args.iter(), |(name, arg)| {
-            validate_type_exist(config, arg.type_of.name()).trace(name)
-        })
-        .unit(),
-    )
+    validate_type_exist(config, field.type_of.name())
+}
+
+fn validate_arg_types_exist(config: &Config, field: &Field) -> Valid<(), BlueprintError> {
+    Valid::from_iter(field.args.iter(), |(name, arg)| {
+        validate_type_exist(config, arg.type_of.name()).trace(name)
+    })
+    .unit()
 }
 
 fn to_fields(
@@ -440,15 +442,20 @@ fn to_fields(
             .iter()
             .filter(|(_, field)| !field.is_omitted()),
         |(name, field)| {
-            let mut result =
-                validate_field_type_exist(config_module, field).and(to_field_definition(
+            // resolvers report unknown types of the arguments they use themselves
+            let mut result = validate_field_type_exist(config_module, field).and(
+                to_field_definition(
                     field,
                     &operation_type,
                     object_name,
                     config_module,
                     type_of,
                     name,
-                ));
+                )
+                .and_then(|definition| {
+                    validate_arg_types_exist(config_module, field).map_to(definition)
+                }),
+            );
 
             if fields_with_different_auth_ids.contains(name) || parent_auth_ids.is_none() {
                 // if the field has a different auth id than the parent type or parent has no
-- 
2.43.0


From ea205946adafb4761cdd2eab5980a7f91f3843e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 057/122] fix: linked configurations with different root types
 are a disagreement

---
 src/core/config/config_module/merge.rs | 30 ++++++++++++++++++--------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/core/config/config_module/merge.rs b/src/core/config/config_module/merge.rs
index 6d0e3e1..e0a2f6a 100644
--- a/src/core/config/config_module/merge.rs
+++ b/src/core/config/config_module/merge.rs
@@ -185,19 +185,31 @@ impl Covariant for Enum {
 
 impl Invariant for RootSchema {
     fn unify(self, other: Self) -> Valid<Self, String> {
-        fn unify_option<T>(left: Option<T>, right: Option<T>) -> Option<T> {
+        fn unify_root(
+            operation: &str,
+            left: Option<String>,
+            right: Option<String>,
+        ) -> Valid<Option<String>, String> {
             match (left, right) {
-                (None, None) => None,
-                (None, Some(that)) => Some(that),
-                (Some(this), _) => Some(this),
+                (Some(this), Some(that)) if this != that => Valid::fail(format!(
+                    "Root type mismatch: expected `{}`, got `{}`",
+                    this, that
+                ))
+                .trace(operation)
+                .trace("schema"),
+                (Some(this), _) => Valid::succeed(Some(this)),
+                (None, that) => Valid::succeed(that),
             }
         }
 
-        Valid::succeed(Self {
-            query: unify_option(self.query, other.query),
-            mutation: unify_option(self.mutation, other.mutation),
-            subscription: unify_option(self.subscription, other.subscription),
-        })
+        unify_root("query", self.query, other.query)
+            .fuse(unify_root("mutation", self.mutation, other.mutation))
+            .fuse(unify_root(
+                "subscription",
+                self.subscription,
+                other.subscription,
+            ))
+            .map(|(query, mutation, subscription)| Self { query, mutation, subscription })
     }
 }
 
-- 
2.43.0


From 7886370918bfa08b89b9b442f51058b17b8b30c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 058/122] fix: a name declared as different kinds of type by
 linked configurations is a disagreement

---
 src/core/config/config_module/merge.rs | 28 +++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/core/config/config_module/merge.rs b/src/core/config/config_module/merge.rs
index e0a2f6a..2b9a87d 100644
--- a/src/core/config/config_module/merge.rs
+++ b/src/core/config/config_module/merge.rs
@@ -213,8 +213,33 @@ impl Invariant for RootSchema {
     }
 }
 
+/// Checks that the names that are declared in both of the configs are declared
+/// there as the same kind of type
+fn unify_kinds(config: &Config, other: &Config) -> Valid<(), String> {
+    fn kinds(config: &Config) -> impl Iterator<Item = (&String, &'static str)> {
+        let types = config.types.keys().map(|name| (name, "type"));
+        let enums = config.enums.keys().map(|name| (name, "enum"));
+        let unions = config.unions.keys().map(|name| (name, "union"));
+
+        types.chain(enums).chain(unions)
+    }
+
+    let known = kinds(config).collect::<BTreeMap<_, _>>();
+
+    Valid::from_iter(kinds(other), |(name, kind)| match known.get(name) {
+        Some(known) if *known != kind => Valid::fail(format!(
+            "Definition mismatch: expected {}, got {}",
+            known, kind
+        ))
+        .trace(name),
+        _ => Valid::succeed(()),
+    })
+    .unit()
+}
+
 impl Invariant for Cache {
     fn unify(self, other: Self) -> Valid<Self, String> {
+        let kinds = unify_kinds(&self.config, &other.config);
         let mut types = self.config.types;
         let mut enums = self.config.enums;
 
@@ -301,7 +326,8 @@ impl Invariant for Cache {
             .trace(&trace_name)
         }))
         .fuse(self.config.schema.unify(other.config.schema))
-        .map( |(merged_types, merged_enums, schema)| {
+        .fuse(kinds)
+        .map( |(merged_types, merged_enums, schema, _)| {
             types.extend(merged_types);
             enums.extend(merged_enums);
 
-- 
2.43.0


From 9b9a5393c62139f27dfed2c39bb2b74c6c568d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 059/122] fix: input types and enums of linked configurations
 with nothing in common are a disagreement

---
 src/core/config/config_module/merge.rs | 37 ++++++++++++++++++--------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/core/config/config_module/merge.rs b/src/core/config/config_module/merge.rs
index 2b9a87d..981f57b 100644
--- a/src/core/config/config_module/merge.rs
+++ b/src/core/config/config_module/merge.rs
@@ -131,17 +131,28 @@ impl Covariant for Field {
 
 impl Contravariant for Type {
     fn shrink(self, other: Self) -> Valid<Self, String> {
-        self.fields.shrink(other.fields).map(|fields| Self {
-            fields,
-            // TODO: is not very clear how to merge added_fields here
-            added_fields: self.added_fields.merge_right(other.added_fields),
-            doc: self.doc.merge_right(other.doc),
-            implements: self.implements.merge_right(other.implements),
-            cache: self.cache.merge_right(other.cache),
-            protected: self.protected.merge_right(other.protected),
-            resolvers: self.resolvers.merge_right(other.resolvers),
-            directives: self.directives.merge_right(other.directives),
-        })
+        let is_scalar = self.scalar() && other.scalar();
+
+        self.fields
+            .shrink(other.fields)
+            .and_then(|fields| {
+                if fields.is_empty() && !is_scalar {
+                    Valid::fail("Input types have no fields in common".to_string())
+                } else {
+                    Valid::succeed(fields)
+                }
+            })
+            .map(|fields| Self {
+                fields,
+                // TODO: is not very clear how to merge added_fields here
+                added_fields: self.added_fields.merge_right(other.added_fields),
+                doc: self.doc.merge_right(other.doc),
+                implements: self.implements.merge_right(other.implements),
+                cache: self.cache.merge_right(other.cache),
+                protected: self.protected.merge_right(other.protected),
+                resolvers: self.resolvers.merge_right(other.resolvers),
+                directives: self.directives.merge_right(other.directives),
+            })
     }
 }
 
@@ -165,6 +176,10 @@ impl Contravariant for Enum {
     fn shrink(mut self, other: Self) -> Valid<Self, String> {
         self.variants.retain(|key| other.variants.contains(key));
 
+        if self.variants.is_empty() {
+            return Valid::fail("Input enums have no values in common".to_string());
+        }
+
         Valid::succeed(Self {
             variants: self.variants,
             doc: self.doc.merge_right(other.doc),
-- 
2.43.0


From ccabfdd3602d12e99dd854ab4362129a069ac4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 060/122] fix: types known only by their interface can be
 merged from linked configurations

---
 src/core/config/config_module/merge.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/config/config_module/merge.rs b/src/core/config/config_module/merge.rs
index 981f57b..33fa9f3 100644
--- a/src/core/config/config_module/merge.rs
+++ b/src/core/config/config_module/merge.rs
@@ -265,9 +265,11 @@ impl Invariant for Cache {
                     let is_self_input = self.input_types.contains(&type_name);
                     let is_other_input = other.input_types.contains(&type_name);
                     let is_self_output = self.output_types.contains(&type_name)
-                        || self.interfaces_types_map.contains_key(&type_name);
+                        || self.interfaces_types_map.contains_key(&type_name)
+                        || !ty.implements.is_empty();
                     let is_other_output = other.output_types.contains(&type_name)
-                        || other.interfaces_types_map.contains_key(&type_name);
+                        || other.interfaces_types_map.contains_key(&type_name)
+                        || !other_type.implements.is_empty();
 
                     match (
                         is_self_input,
-- 
2.43.0


From b28eb47eb1971a67686f4721e21f25af20006b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 061/122] fix: a type used in one linked configuration and
 declared in others has a known usage

---
 src/core/config/config.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/config/config.rs b/src/core/config/config.rs
index 8090de0..e189802 100644
--- a/src/core/config/config.rs
+++ b/src/core/config/config.rs
@@ -460,7 +460,8 @@ impl Config {
                     types = self.find_connections(field.type_of.name(), types);
                 }
             }
-        } else if self.find_enum(type_of).is_some() {
+        } else if !self.is_scalar(type_of) {
+            // either an enum or a type that is declared in another config
             types.insert(type_of.into());
         }
         types
-- 
2.43.0


From 5d52a90ee7d1becde40bd7e1147a32a75b62a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 062/122] fix: equal definitions from linked configurations are
 never a disagreement

---
 src/core/config/config_module/merge.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/core/config/config_module/merge.rs b/src/core/config/config_module/merge.rs
index 33fa9f3..78568ce 100644
--- a/src/core/config/config_module/merge.rs
+++ b/src/core/config/config_module/merge.rs
@@ -293,6 +293,8 @@ impl Invariant for Cache {
                         (true, true, _, _) | (_, _, true, true) => Valid::fail("Type is used both as input and output type that couldn't be merged for federation".to_string()),
                         // type is used differently on both sides
                         (true, false, false, true) | (false, true, true, false) => Valid::fail("Type is used as input type in one subgraph and output type in another".to_string()),
+                        // there is nothing to infer for the same definition
+                        (false, false, false, false) if ty == other_type => Valid::succeed(ty),
                         (false, false, false, false) => Valid::fail("Cannot infer the usage of type and therefore merge it from the subgraph".to_string()),
                     }
                 }
@@ -323,15 +325,11 @@ impl Invariant for Cache {
                         (false, false, false, true) | (false, true, false, false) => {
                             en.expand(other_enum)
                         }
+                        // the same definition fits any usage
+                        _ if en == other_enum => Valid::succeed(en),
                         // if type is used as both input and output on either side
                         // generated validation error because we need to merge it differently
-                        (true, true, _, _) | (_, _, true, true) => {
-                            if en == other_enum {
-                                Valid::succeed(en)
-                            } else {
-                                Valid::fail("Enum is used both as input and output types and in that case the enum content should be equal for every subgraph".to_string())
-                            }
-                        },
+                        (true, true, _, _) | (_, _, true, true) => Valid::fail("Enum is used both as input and output types and in that case the enum content should be equal for every subgraph".to_string()),
                         // type is used differently on both sides
                         (true, false, false, true) | (false, true, true, false) => Valid::fail("Enum is used as input type in one subgraph and output type in another".to_string()),
                         (false, false, false, false) => Valid::fail("Cannot infer the usage of enum and therefore merge it from the subgraph".to_string()),
-- 
2.43.0


From ad44397ecf6abcd0c3d1aa1ebc1a439395f58d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 063/122] fix: the links of a linked configuration are resolved

---
 src/core/config/reader.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/core/config/reader.rs b/src/core/config/reader.rs
index 5240e65..8af3047 100644
--- a/src/core/config/reader.rs
+++ b/src/core/config/reader.rs
@@ -1,3 +1,4 @@
+use std::collections::HashSet;
 use std::path::Path;
 
 use futures_util::future::join_all;
@@ -10,6 +11,7 @@ use url::Url;
 
 use super::{ConfigModule, Content, Link, LinkType, PrivateKey};
 use crate::core::config::{Config, ConfigReaderContext, Source};
+use crate::core::merge_right::MergeRight;
 use crate::core::proto_reader::ProtoReader;
 use crate::core::resource_reader::{Cached, Resource, ResourceReader};
 use crate::core::rest::EndpointSet;
@@ -34,11 +36,13 @@ impl ConfigReader {
         }
     }
 
-    /// Reads the links in a Config and fill the content
+    /// Reads the links in a Config and fill the content.
+    /// The paths of the configs that were linked already are kept in `linked`
     async fn ext_links(
         &self,
         config_module: ConfigModule,
         parent_dir: Option<&Path>,
+        linked: &mut HashSet<String>,
     ) -> anyhow::Result<ConfigModule> {
         let reader_ctx = ConfigReaderContext::new(&self.runtime);
 
@@ -72,11 +76,21 @@ impl ConfigReader {
                         .read_file(path)
                         .await?
                         .render(&reader_ctx);
+                    if !linked.insert(source.path.clone()) {
+                        continue;
+                    }
                     let content = source.content;
                     let config = Config::from_source(Source::detect(&source.path)?, &content)?;
-                    config_module = config_module.and_then(|config_module| {
-                        config_module.unify(ConfigModule::from(config.clone()))
-                    });
+                    // links of the linked config are relative to its own location
+                    let other = Box::pin(self.ext_links(
+                        ConfigModule::from(config),
+                        Path::new(&source.path).parent(),
+                        linked,
+                    ))
+                    .await?;
+                    extensions = extensions.merge_right(other.extensions().clone());
+                    config_module =
+                        config_module.and_then(|config_module| config_module.unify(other));
                 }
                 LinkType::Protobuf => {
                     let proto_paths = link.proto_paths.as_ref().map(|paths| {
@@ -245,7 +259,8 @@ impl ConfigReader {
         config.telemetry.render_mustache(&reader_ctx)?;
 
         // Create initial config set & extend it with the links
-        self.ext_links(ConfigModule::from(config), parent_dir).await
+        self.ext_links(ConfigModule::from(config), parent_dir, &mut HashSet::new())
+            .await
     }
 
     /// Checks if path is a URL or absolute path, returns directly if so.
-- 
2.43.0


From f1c77d6a115465103ae6486286eda628fe601ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 064/122] fix: everything said about interfaces, unions and
 arguments is published

---
 src/core/blueprint/into_schema.rs | 46 ++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/core/blueprint/into_schema.rs b/src/core/blueprint/into_schema.rs
index 018d5ce..9c8a903 100644
--- a/src/core/blueprint/into_schema.rs
+++ b/src/core/blueprint/into_schema.rs
@@ -5,7 +5,7 @@ use async_graphql_value::ConstValue;
 use futures_util::TryFutureExt;
 use tracing::Instrument;
 
-use crate::core::blueprint::{Blueprint, Definition};
+use crate::core::blueprint::{Blueprint, Definition, InputFieldDefinition};
 use crate::core::http::RequestContext;
 use crate::core::ir::{EvalContext, ResolverContext, TypedValue};
 use crate::core::jit::graphql_error::ErrorExtensions;
@@ -51,6 +51,15 @@ fn to_field_value(value: async_graphql::Value) -> FieldValue<'static> {
     }
 }
 
+fn to_input_value(input: &InputFieldDefinition) -> dynamic::InputValue {
+    let mut input_value =
+        dynamic::InputValue::new(input.name.clone(), TypeRef::from(&input.of_type));
+    if let Some(description) = &input.description {
+        input_value = input_value.description(description);
+    }
+    set_default_value(input_value, input.default_value.clone())
+}
+
 fn to_type(def: &Definition) -> dynamic::Type {
     match def {
         Definition::Object(def) => {
@@ -119,10 +128,7 @@ fn to_type(def: &Definition) -> dynamic::Type {
                     dyn_schema_field = dyn_schema_field.description(description);
                 }
                 for arg in field.args.iter() {
-                    dyn_schema_field = dyn_schema_field.argument(set_default_value(
-                        dynamic::InputValue::new(arg.name.clone(), TypeRef::from(&arg.of_type)),
-                        arg.default_value.clone(),
-                    ));
+                    dyn_schema_field = dyn_schema_field.argument(to_input_value(arg));
                 }
                 object = object.field(dyn_schema_field);
             }
@@ -138,10 +144,21 @@ fn to_type(def: &Definition) -> dynamic::Type {
         Definition::Interface(def) => {
             let mut interface = dynamic::Interface::new(def.name.clone());
             for field in def.fields.iter() {
-                interface = interface.field(dynamic::InterfaceField::new(
-                    field.name.clone(),
-                    TypeRef::from(&field.of_type),
-                ));
+                let mut interface_field =
+                    dynamic::InterfaceField::new(field.name.clone(), TypeRef::from(&field.of_type));
+                if let Some(description) = &field.description {
+                    interface_field = interface_field.description(description);
+                }
+                for arg in field.args.iter() {
+                    interface_field = interface_field.argument(to_input_value(arg));
+                }
+                interface = interface.field(interface_field);
+            }
+            if let Some(description) = &def.description {
+                interface = interface.description(description);
+            }
+            for implemented in def.implements.iter() {
+                interface = interface.implement(implemented.clone());
             }
 
             dynamic::Type::Interface(interface)
@@ -149,13 +166,7 @@ fn to_type(def: &Definition) -> dynamic::Type {
         Definition::InputObject(def) => {
             let mut input_object = dynamic::InputObject::new(def.name.clone());
             for field in def.fields.iter() {
-                let mut input_field =
-                    dynamic::InputValue::new(field.name.clone(), TypeRef::from(&field.of_type));
-                if let Some(description) = &field.description {
-                    input_field = input_field.description(description);
-                }
-                let input_field = set_default_value(input_field, field.default_value.clone());
-                input_object = input_object.field(input_field);
+                input_object = input_object.field(to_input_value(field));
             }
             if let Some(description) = &def.description {
                 input_object = input_object.description(description);
@@ -187,6 +198,9 @@ fn to_type(def: &Definition) -> dynamic::Type {
             for type_ in def.types.iter() {
                 union = union.possible_type(type_.clone());
             }
+            if let Some(description) = &def.description {
+                union = union.description(description);
+            }
             dynamic::Type::Union(union)
         }
     }
-- 
2.43.0


From fdfce32d38f977799d6eda6934ff84ec85648518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 065/122] fix: exactly the types the operations can reach are
 published

---
 src/core/blueprint/compress.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/core/blueprint/compress.rs b/src/core/blueprint/compress.rs
index cf6feec..0e1b485 100644
--- a/src/core/blueprint/compress.rs
+++ b/src/core/blueprint/compress.rs
@@ -7,22 +7,14 @@ use super::{Blueprint, Definition};
 pub fn compress(mut blueprint: Blueprint) -> Blueprint {
     let graph = build_dependency_graph(&blueprint);
 
-    // Pre-defined root-types for graphql
-    let mut root_type = vec!["Query", "Mutation", "Subscription"];
-
-    // User-might create custom root-types other than default i.e non-default types
-    // for root-definitions.
-    let defined_query_type = blueprint.query().clone();
-    let mutation = blueprint.mutation().unwrap_or("Mutation".to_string());
-
-    // Push to root-types
-    root_type.push(defined_query_type.as_str());
-    root_type.push(mutation.as_str());
+    // The root types are whatever the schema definition says they are
+    let query = blueprint.query();
+    let mutation = blueprint.mutation();
+    let root_type = std::iter::once(query.as_str())
+        .chain(mutation.as_deref())
+        .collect();
 
     let mut referenced_types = identify_referenced_types(&graph, root_type);
-    referenced_types.insert("Query".to_string());
-    referenced_types.insert("Mutation".to_string());
-    referenced_types.insert("Subscription".to_string());
     referenced_types.insert("__Schema".to_string());
     referenced_types.insert("__Type".to_string());
     referenced_types.insert("__Field".to_string());
@@ -59,6 +51,10 @@ fn build_dependency_graph(blueprint: &Blueprint) -> HashMap<&str, Vec<&String>>
             }
             Definition::Interface(def) => {
                 dependencies.extend(def.fields.iter().map(|field| field.of_type.name()));
+                for field in &def.fields {
+                    dependencies.extend(field.args.iter().map(|arg| arg.of_type.name()));
+                }
+                dependencies.extend(def.implements.iter());
                 for def_inner in &blueprint.definitions {
                     if let Definition::Object(def_inner) = def_inner {
                         if def_inner.implements.contains(&def.name) {
@@ -70,9 +66,8 @@ fn build_dependency_graph(blueprint: &Blueprint) -> HashMap<&str, Vec<&String>>
             Definition::InputObject(def) => {
                 dependencies.extend(def.fields.iter().map(|field| field.of_type.name()));
             }
-            Definition::Enum(def) => {
-                dependencies.extend(def.enum_values.iter().map(|value| &value.name));
-            }
+            // the values of an enum aren't types
+            Definition::Enum(_) => {}
             Definition::Union(def) => {
                 dependencies.extend(def.types.iter());
             }
-- 
2.43.0


From ca7bf41e26159083ef4553ee18aaca4254fbe0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 066/122] fix: the type of a field added by @addField is the
 type at the end of its path

---
 src/core/blueprint/definitions.rs | 214 ++++++------------------------
 1 file changed, 41 insertions(+), 173 deletions(-)

diff --git a/src/core/blueprint/definitions.rs b/src/core/blueprint/definitions.rs
index 614a6a0..6afa285 100644
--- a/src/core/blueprint/definitions.rs
+++ b/src/core/blueprint/definitions.rs
@@ -3,7 +3,6 @@ use std::collections::HashSet;
 use async_graphql_value::ConstValue;
 use directive::Directive;
 use interface_resolver::update_interface_resolver;
-use regex::Regex;
 use tailcall_valid::{Valid, Validator};
 use union_resolver::update_union_resolver;
 
@@ -73,172 +72,66 @@ pub fn to_interface_type_definition(
 type InvalidPathHandler = dyn Fn(&str, &[String], &[String]) -> Valid<Type, BlueprintError>;
 type PathResolverErrorHandler = dyn Fn(&str, &str, &str, &[String]) -> Valid<Type, BlueprintError>;
 
-struct ProcessFieldWithinTypeContext<'a> {
-    field: &'a config::Field,
-    field_name: &'a str,
-    remaining_path: &'a [String],
-    type_info: &'a config::Type,
-    is_required: bool,
-    config_module: &'a ConfigModule,
-    invalid_path_handler: &'a InvalidPathHandler,
-    path_resolver_error_handler: &'a PathResolverErrorHandler,
-    original_path: &'a [String],
-}
-
 #[derive(Clone)]
 struct ProcessPathContext<'a> {
     path: &'a [String],
     field: &'a config::Field,
-    type_info: &'a config::Type,
-    // TODO: does it even used other than as false?
-    is_required: bool,
     config_module: &'a ConfigModule,
     invalid_path_handler: &'a InvalidPathHandler,
     path_resolver_error_handler: &'a PathResolverErrorHandler,
     original_path: &'a [String],
 }
 
-fn process_field_within_type(
-    context: ProcessFieldWithinTypeContext,
-) -> Valid<Type, BlueprintError> {
+// Helper function to recursively process the path, which starts at the value of
+// the field, and return the corresponding type
+fn process_path(context: ProcessPathContext) -> Valid<Type, BlueprintError> {
     let field = context.field;
-    let field_name = context.field_name;
-    let remaining_path = context.remaining_path;
-    let type_info = context.type_info;
-    let is_required = context.is_required;
-    let config_module = context.config_module;
-    let invalid_path_handler = context.invalid_path_handler;
-    let path_resolver_error_handler = context.path_resolver_error_handler;
-
-    if let Some(next_field) = type_info.fields.get(field_name) {
-        if !next_field.resolvers.is_empty() {
+    let Some((name, remaining_path)) = context.path.split_first() else {
+        return Valid::succeed(field.type_of.clone().into_nullable());
+    };
+
+    if name.parse::<usize>().is_ok() {
+        let mut item = field.clone();
+        if let Type::List { of_type, .. } = &field.type_of {
+            item.type_of = of_type.as_ref().clone();
+        }
+        return process_path(ProcessPathContext { path: remaining_path, field: &item, ..context });
+    }
+
+    let next_field = context
+        .config_module
+        .find_type(field.type_of.name())
+        .and_then(|type_info| type_info.fields.get(name));
+
+    match next_field {
+        Some(next_field) => {
             let mut valid = Valid::succeed(field.type_of.clone());
 
             for resolver in next_field.resolvers.iter() {
-                valid = valid.and(path_resolver_error_handler(
+                valid = valid.and((context.path_resolver_error_handler)(
                     &resolver.directive_name(),
                     field.type_of.name(),
-                    field_name,
+                    name,
                     context.original_path,
                 ));
             }
 
-            return valid.and(process_path(ProcessPathContext {
-                type_info,
-                is_required,
-                config_module,
-                invalid_path_handler,
-                path_resolver_error_handler,
-                path: remaining_path,
-                field: next_field,
-                original_path: context.original_path,
-            }));
-        }
-
-        let next_is_required = is_required && !next_field.type_of.is_nullable();
-        if scalar::Scalar::is_predefined(next_field.type_of.name()) {
-            return process_path(ProcessPathContext {
-                type_info,
-                config_module,
-                invalid_path_handler,
-                path_resolver_error_handler,
-                path: remaining_path,
-                field: next_field,
-                is_required: next_is_required,
-                original_path: context.original_path,
-            });
-        }
-
-        if let Some(next_type_info) = config_module.find_type(next_field.type_of.name()) {
-            return process_path(ProcessPathContext {
-                config_module,
-                invalid_path_handler,
-                path_resolver_error_handler,
-                path: remaining_path,
-                field: next_field,
-                type_info: next_type_info,
-                is_required: next_is_required,
-                original_path: context.original_path,
-            })
-            .and_then(|of_type| {
-                if next_field.type_of.is_list() {
-                    Valid::succeed(Type::List { of_type: Box::new(of_type), non_null: is_required })
-                } else {
-                    Valid::succeed(of_type)
-                }
-            });
-        }
-    } else if let Some((head, tail)) = remaining_path.split_first() {
-        if let Some(field) = type_info.fields.get(head) {
-            return process_path(ProcessPathContext {
-                path: tail,
-                field,
-                type_info,
-                is_required,
-                config_module,
-                invalid_path_handler,
-                path_resolver_error_handler,
-                original_path: context.original_path,
-            });
-        }
-    }
-
-    invalid_path_handler(field_name, remaining_path, context.original_path)
-}
-
-// Helper function to recursively process the path and return the corresponding
-// type
-fn process_path(context: ProcessPathContext) -> Valid<Type, BlueprintError> {
-    let path = context.path;
-    let field = context.field;
-    let type_info = context.type_info;
-    let is_required = context.is_required;
-    let config_module = context.config_module;
-    let invalid_path_handler = context.invalid_path_handler;
-    let path_resolver_error_handler = context.path_resolver_error_handler;
-    if let Some((field_name, remaining_path)) = path.split_first() {
-        if field_name.parse::<usize>().is_ok() {
-            let mut modified_field = field.clone();
-            // TODO: does it required?
-            modified_field.type_of = modified_field.type_of.into_single();
-            return process_path(ProcessPathContext {
-                config_module,
-                type_info,
-                invalid_path_handler,
-                path_resolver_error_handler,
-                path: remaining_path,
-                field: &modified_field,
-                is_required: false,
-                original_path: context.original_path,
-            });
-        }
-        let target_type_info = type_info
-            .fields
-            .get(field_name)
-            .map(|_| type_info)
-            .or_else(|| config_module.find_type(field.type_of.name()));
-
-        if let Some(type_info) = target_type_info {
-            return process_field_within_type(ProcessFieldWithinTypeContext {
-                field,
-                field_name,
-                remaining_path,
-                type_info,
-                is_required,
-                config_module,
-                invalid_path_handler,
-                path_resolver_error_handler,
-                original_path: context.original_path,
-            });
+            valid
+                .and(process_path(ProcessPathContext {
+                    path: remaining_path,
+                    field: next_field,
+                    ..context
+                }))
+                .map(|of_type| {
+                    if field.type_of.is_list() {
+                        Type::List { of_type: Box::new(of_type), non_null: false }
+                    } else {
+                        of_type
+                    }
+                })
         }
-        return invalid_path_handler(field_name, path, context.original_path);
+        None => (context.invalid_path_handler)(name, remaining_path, context.original_path),
     }
-
-    Valid::succeed(if is_required {
-        field.type_of.clone().into_required()
-    } else {
-        field.type_of.clone().into_nullable()
-    })
 }
 
 fn to_enum_type_definition((name, eu): (&String, &Enum)) -> Definition {
@@ -305,30 +198,15 @@ fn update_args<'a>() -> TryFold<
     )
 }
 
-fn item_is_numeric(list: &[String]) -> bool {
-    list.iter().any(|s| {
-        let re = Regex::new(r"^\d+$").unwrap();
-        re.is_match(s)
-    })
-}
-
 fn update_resolver_from_path(
     context: &ProcessPathContext,
     base_field: blueprint::FieldDefinition,
 ) -> Valid<blueprint::FieldDefinition, BlueprintError> {
-    let has_index = item_is_numeric(context.path);
-
     process_path(context.clone()).and_then(|of_type| {
         let mut updated_base_field = base_field;
-        let resolver = IR::ContextPath(context.path.to_owned());
-        if has_index {
-            updated_base_field.of_type =
-                Type::Named { name: of_type.name().to_string(), non_null: false }
-        } else {
-            updated_base_field.of_type = of_type;
-        }
+        updated_base_field.of_type = of_type;
         let resolver = match updated_base_field.resolver.clone() {
-            None => resolver,
+            None => IR::ContextPath(context.original_path.to_owned()),
             Some(resolver) => IR::Path(Box::new(resolver), context.path.to_owned()),
         };
         Valid::succeed(updated_base_field.resolver(Some(resolver)))
@@ -484,14 +362,6 @@ fn to_fields(
                 &add_field.name,
             )
             .and_then(|field_definition| {
-                let added_field_path = if source_field.resolvers.is_empty() {
-                    add_field.path.clone()
-                } else {
-                    add_field.path[1..]
-                        .iter()
-                        .map(|s| s.to_owned())
-                        .collect::<Vec<_>>()
-                };
                 let invalid_path_handler = |field_name: &str,
                                             _added_field_path: &[String],
                                             original_path: &[String]|
@@ -519,10 +389,8 @@ fn to_fields(
                 };
                 update_resolver_from_path(
                     &ProcessPathContext {
-                        path: &added_field_path,
+                        path: &add_field.path[1..],
                         field: source_field,
-                        type_info: type_of,
-                        is_required: false,
                         config_module,
                         invalid_path_handler: &invalid_path_handler,
                         path_resolver_error_handler: &path_resolver_error_handler,
-- 
2.43.0


From e18b39dd16b716a84ea58094125fd8626175182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 067/122] fix: default values of enum types are published as
 enum values

---
 src/core/blueprint/into_schema.rs | 63 ++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 9 deletions(-)

diff --git a/src/core/blueprint/into_schema.rs b/src/core/blueprint/into_schema.rs
index 9c8a903..c0b12ca 100644
--- a/src/core/blueprint/into_schema.rs
+++ b/src/core/blueprint/into_schema.rs
@@ -1,7 +1,7 @@
 use std::sync::Arc;
 
 use async_graphql::dynamic::{self, FieldFuture, FieldValue, SchemaBuilder, TypeRef};
-use async_graphql_value::ConstValue;
+use async_graphql_value::{ConstValue, Name};
 use futures_util::TryFutureExt;
 use tracing::Instrument;
 
@@ -10,6 +10,7 @@ use crate::core::http::RequestContext;
 use crate::core::ir::{EvalContext, ResolverContext, TypedValue};
 use crate::core::jit::graphql_error::ErrorExtensions;
 use crate::core::scalar::Scalar;
+use crate::core::Type;
 
 /// We set the default value for an `InputValue` by reading it from the
 /// blueprint and assigning it to the provided `InputValue` during the
@@ -18,12 +19,16 @@ use crate::core::scalar::Scalar;
 /// other GraphQL implementations, this is commonly referred to as
 /// `InputValueDefinition`.
 fn set_default_value(
+    blueprint: &Blueprint,
+    of_type: &Type,
     input_value: dynamic::InputValue,
     value: Option<serde_json::Value>,
 ) -> dynamic::InputValue {
     if let Some(value) = value {
         match ConstValue::from_json(value) {
-            Ok(const_value) => input_value.default_value(const_value),
+            Ok(const_value) => {
+                input_value.default_value(to_input_literal(blueprint, of_type.name(), const_value))
+            }
             Err(err) => {
                 tracing::warn!("conversion from serde_json::Value to ConstValue failed for default_value with error {err:?}");
                 input_value
@@ -34,6 +39,41 @@ fn set_default_value(
     }
 }
 
+/// JSON has no enum values, so they are read as strings. The type tells them
+/// apart.
+fn to_input_literal(blueprint: &Blueprint, type_name: &str, value: ConstValue) -> ConstValue {
+    match value {
+        ConstValue::List(items) => ConstValue::List(
+            items
+                .into_iter()
+                .map(|item| to_input_literal(blueprint, type_name, item))
+                .collect(),
+        ),
+        value => match (find_definition(blueprint, type_name), value) {
+            (Some(Definition::Enum(_)), ConstValue::String(name)) => {
+                ConstValue::Enum(Name::new(name))
+            }
+            (Some(Definition::InputObject(def)), ConstValue::Object(object)) => ConstValue::Object(
+                object
+                    .into_iter()
+                    .map(|(key, value)| {
+                        let value = match def.fields.iter().find(|field| field.name == key) {
+                            Some(field) => to_input_literal(blueprint, field.of_type.name(), value),
+                            None => value,
+                        };
+                        (key, value)
+                    })
+                    .collect(),
+            ),
+            (_, value) => value,
+        },
+    }
+}
+
+fn find_definition<'a>(blueprint: &'a Blueprint, name: &str) -> Option<&'a Definition> {
+    blueprint.definitions.iter().find(|def| def.name() == name)
+}
+
 fn to_field_value(value: async_graphql::Value) -> FieldValue<'static> {
     match value {
         ConstValue::List(vec) => FieldValue::list(vec.into_iter().map(to_field_value)),
@@ -51,16 +91,21 @@ fn to_field_value(value: async_graphql::Value) -> FieldValue<'static> {
     }
 }
 
-fn to_input_value(input: &InputFieldDefinition) -> dynamic::InputValue {
+fn to_input_value(blueprint: &Blueprint, input: &InputFieldDefinition) -> dynamic::InputValue {
     let mut input_value =
         dynamic::InputValue::new(input.name.clone(), TypeRef::from(&input.of_type));
     if let Some(description) = &input.description {
         input_value = input_value.description(description);
     }
-    set_default_value(input_value, input.default_value.clone())
+    set_default_value(
+        blueprint,
+        &input.of_type,
+        input_value,
+        input.default_value.clone(),
+    )
 }
 
-fn to_type(def: &Definition) -> dynamic::Type {
+fn to_type(blueprint: &Blueprint, def: &Definition) -> dynamic::Type {
     match def {
         Definition::Object(def) => {
             let mut object = dynamic::Object::new(def.name.clone());
@@ -128,7 +173,7 @@ fn to_type(def: &Definition) -> dynamic::Type {
                     dyn_schema_field = dyn_schema_field.description(description);
                 }
                 for arg in field.args.iter() {
-                    dyn_schema_field = dyn_schema_field.argument(to_input_value(arg));
+                    dyn_schema_field = dyn_schema_field.argument(to_input_value(blueprint, arg));
                 }
                 object = object.field(dyn_schema_field);
             }
@@ -150,7 +195,7 @@ fn to_type(def: &Definition) -> dynamic::Type {
                     interface_field = interface_field.description(description);
                 }
                 for arg in field.args.iter() {
-                    interface_field = interface_field.argument(to_input_value(arg));
+                    interface_field = interface_field.argument(to_input_value(blueprint, arg));
                 }
                 interface = interface.field(interface_field);
             }
@@ -166,7 +211,7 @@ fn to_type(def: &Definition) -> dynamic::Type {
         Definition::InputObject(def) => {
             let mut input_object = dynamic::InputObject::new(def.name.clone());
             for field in def.fields.iter() {
-                input_object = input_object.field(to_input_value(field));
+                input_object = input_object.field(to_input_value(blueprint, field));
             }
             if let Some(description) = &def.description {
                 input_object = input_object.description(description);
@@ -215,7 +260,7 @@ impl From<&Blueprint> for SchemaBuilder {
         schema = inject_custom_scalars(schema, blueprint);
 
         for def in blueprint.definitions.iter() {
-            schema = schema.register(to_type(def));
+            schema = schema.register(to_type(blueprint, def));
         }
 
         schema
-- 
2.43.0


From e627b50d47dd67ef6a5923d7a1ec98992a369c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 068/122] fix: fields of custom scalar types have no resolver
 of their own

---
 src/core/blueprint/schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/blueprint/schema.rs b/src/core/blueprint/schema.rs
index 303fff6..39789c6 100644
--- a/src/core/blueprint/schema.rs
+++ b/src/core/blueprint/schema.rs
@@ -53,7 +53,7 @@ pub fn validate_field_has_resolver(
         .when(|| {
             if !field.has_resolver() {
                 let type_name = field.type_of.name();
-                if let Some(ty) = types.get(type_name) {
+                if let Some(ty) = types.get(type_name).filter(|ty| !ty.scalar()) {
                     let res = validate_type_has_resolvers(type_name, ty, types, visited);
                     return !res.is_succeed();
                 }
-- 
2.43.0


From 1a3ebba2435779f320581d4bf8331580970a97b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 069/122] fix: only __schema and __type need introspection

---
 src/core/jit/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index db3cfcf..4bec8a1 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -366,7 +366,7 @@ impl<'a> Builder<'a> {
         let is_introspection_query = operation.selection_set.node.items.iter().any(|f| {
             if let Selection::Field(Positioned { node: gql_field, .. }) = &f.node {
                 let query = gql_field.name.node.as_str();
-                query.contains("__schema") || query.contains("__type")
+                query == "__schema" || query == "__type"
             } else {
                 false
             }
-- 
2.43.0


From e9adcb533165e1532bd27fff5c6a0bac3a32c31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 070/122] fix: null is a valid item of a list argument when its
 type says so

---
 src/core/jit/transform/input_resolver.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/jit/transform/input_resolver.rs b/src/core/jit/transform/input_resolver.rs
index 3787719..f425d17 100644
--- a/src/core/jit/transform/input_resolver.rs
+++ b/src/core/jit/transform/input_resolver.rs
@@ -175,6 +175,10 @@ where
             return Ok(Some(value));
         };
 
+        if value.is_null() {
+            return Ok(Some(value));
+        }
+
         if let Some(obj) = value.as_object_mut() {
             for arg_field in &def.fields {
                 let parent_name = format!("{}.{}", parent_name, arg_name);
@@ -196,6 +200,10 @@ where
                 }
             }
         } else if let Some(arr) = value.as_array_mut() {
+            let type_of = match type_of {
+                Type::List { of_type, .. } => of_type,
+                type_of => type_of,
+            };
             for (i, item) in arr.iter_mut().enumerate() {
                 let parent_name = format!("{}.{}.{}", parent_name, arg_name, i);
 
-- 
2.43.0


From 65b55a36db2e39deaad27dd36f8f873fca955d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 071/122] fix: a scalar may have a list as its value

---
 src/core/jit/synth/synth.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/jit/synth/synth.rs b/src/core/jit/synth/synth.rs
index 56bcfe6..6b95b5c 100644
--- a/src/core/jit/synth/synth.rs
+++ b/src/core/jit/synth/synth.rs
@@ -100,7 +100,9 @@ where
                     }
                 }
 
-                if node.type_of.is_list() != value.as_array().is_some() {
+                // the value of a scalar could be a list, it's up to the scalar
+                let is_list = value.as_array().is_some();
+                if node.type_of.is_list() != is_list && !(is_list && node.scalar.is_some()) {
                     return self.node_nullable_guard(node, path, None);
                 }
                 self.iter_inner(node, &node.type_of, value, data_path, path)
-- 
2.43.0


From 6e89fc4b516c6b41f4b3117531b5fe389571c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:07 +0000
Subject: [PATCH 072/122] fix: collect the selected fields and the variables of
 a query as the specification says

---
 src/core/jit/builder.rs                  | 526 +++++++++++++++--------
 src/core/jit/error.rs                    |   2 +
 src/core/jit/exec_const.rs               |  16 +-
 src/core/jit/model.rs                    |  30 +-
 src/core/jit/synth/synth.rs              |  84 +++-
 src/core/jit/transform/input_resolver.rs |  52 +++
 src/core/jit/transform/skip.rs           |  18 +-
 7 files changed, 523 insertions(+), 205 deletions(-)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index 4bec8a1..9fb8672 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::ops::Deref;
 use std::sync::Arc;
 
@@ -64,6 +64,77 @@ impl Conditions {
     }
 }
 
+/// Where a selection is written: the fragments around it and the conditions it
+/// depends on
+#[derive(Clone, PartialEq, Eq, Hash)]
+struct Scope<'b> {
+    parent_fragment: Option<&'b str>,
+    type_condition: &'b str,
+    outer_type_conditions: Vec<&'b str>,
+    skip: Option<Variable>,
+    include: Option<Variable>,
+    conditions: Vec<(Variable, bool)>,
+}
+
+impl<'b> Scope<'b> {
+    fn new(type_condition: &'b str) -> Self {
+        Self {
+            parent_fragment: None,
+            type_condition,
+            outer_type_conditions: Vec::new(),
+            skip: None,
+            include: None,
+            conditions: Vec::new(),
+        }
+    }
+
+    fn with_fragment(&self, type_condition: &'b str) -> Self {
+        let mut scope = self.clone();
+        if self.parent_fragment.is_some() && self.type_condition != type_condition {
+            scope.outer_type_conditions.push(self.type_condition);
+        }
+        scope.parent_fragment = Some(type_condition);
+        scope.type_condition = type_condition;
+        scope
+    }
+
+    /// Returns None in case the conditions can't be met
+    fn with_conditions(&self, conditions: Conditions) -> Option<Self> {
+        if conditions.is_const_skip() || conditions.include == Condition::False {
+            return None;
+        }
+        let mut scope = self.clone();
+        let (include, skip) = conditions.into_variable_tuple();
+        // the conditions of the fragments around
+        scope
+            .conditions
+            .extend(scope.skip.take().map(|skip| (skip, false)));
+        scope
+            .conditions
+            .extend(scope.include.take().map(|include| (include, true)));
+        scope.skip = skip;
+        scope.include = include;
+        Some(scope)
+    }
+
+    fn is_same(&self, other: &Self) -> bool {
+        self.type_condition == other.type_condition
+            && self.outer_type_conditions == other.outer_type_conditions
+            && self.skip == other.skip
+            && self.include == other.include
+            && self.conditions == other.conditions
+    }
+}
+
+/// Selections of the same field
+struct Selected<'b> {
+    output_name: &'b str,
+    field: &'b async_graphql::parser::types::Field,
+    pos: async_graphql::Pos,
+    selection: Vec<&'b SelectionSet>,
+    scope: Scope<'b>,
+}
+
 pub struct Builder<'a> {
     pub index: Arc<Index>,
     pub arg_id: Counter<usize>,
@@ -125,193 +196,290 @@ impl<'a> Builder<'a> {
         }
     }
 
-    #[allow(clippy::too_many_arguments)]
-    #[inline(always)]
-    fn iter(
+    /// Collects the fields of the selection sets in the order they are written,
+    /// looking into fragments. Selections that mean the same field are put
+    /// together.
+    fn collect<'b>(
         &self,
-        parent_fragment: Option<&str>,
-        selection: &SelectionSet,
-        type_condition: &str,
-        fragments: &HashMap<&str, &FragmentDefinition>,
-    ) -> Vec<Field<Value>> {
-        let mut fields = vec![];
-        let mut fragments_fields = vec![];
-        let mut visited = HashSet::new();
-
+        scope: Scope<'b>,
+        selection: &'b SelectionSet,
+        fragments: &HashMap<&'b str, &'b FragmentDefinition>,
+        spread: &mut HashSet<(&'b str, Scope<'b>)>,
+        selected: &mut Vec<Selected<'b>>,
+    ) {
         for selection in &selection.items {
             match &selection.node {
-                Selection::Field(Positioned { node: gql_field, .. }) => {
-                    let field_name = gql_field.name.node.as_str();
-                    let output_name = gql_field
+                Selection::Field(Positioned { node: field, .. }) => {
+                    let Some(scope) = scope.with_conditions(self.include(&field.directives)) else {
+                        continue;
+                    };
+                    let output_name = field
                         .alias
                         .as_ref()
-                        .map(|a| a.node.as_str())
-                        .unwrap_or(field_name);
-                    if visited.contains(output_name) {
-                        continue;
-                    }
-                    visited.insert(output_name);
-                    let conditions = self.include(&gql_field.directives);
-
-                    // Skip fields based on GraphQL's skip/include conditions
-                    if conditions.is_const_skip() {
-                        continue;
+                        .map(|alias| alias.node.as_str())
+                        .unwrap_or(field.name.node.as_str());
+                    let same = selected.iter_mut().find(|other| {
+                        other.output_name == output_name && other.scope.is_same(&scope)
+                    });
+
+                    match same {
+                        Some(other) => other.selection.push(&field.selection_set.node),
+                        None => selected.push(Selected {
+                            output_name,
+                            field,
+                            pos: selection.pos,
+                            selection: vec![&field.selection_set.node],
+                            scope,
+                        }),
                     }
-
-                    let mut directives = Vec::with_capacity(gql_field.directives.len());
-                    for directive in &gql_field.directives {
-                        let directive = &directive.node;
-                        if directive.name.node == "skip" || directive.name.node == "include" {
-                            continue;
+                }
+                Selection::FragmentSpread(Positioned { node: fragment_spread, .. }) => {
+                    let name = fragment_spread.fragment_name.node.as_str();
+                    let scope = scope.with_conditions(self.include(&fragment_spread.directives));
+                    if let (Some(scope), Some(fragment)) = (scope, fragments.get(name)) {
+                        if spread.insert((name, scope.clone())) {
+                            self.collect(
+                                scope.with_fragment(&fragment.type_condition.node.on.node),
+                                &fragment.selection_set.node,
+                                fragments,
+                                spread,
+                                selected,
+                            );
                         }
-                        let arguments = directive
-                            .arguments
-                            .iter()
-                            .map(|(k, v)| (k.node.to_string(), v.node.clone()))
-                            .collect::<Vec<_>>();
-
-                        directives
-                            .push(JitDirective { name: directive.name.to_string(), arguments });
                     }
+                }
+                Selection::InlineFragment(Positioned { node: fragment, .. }) => {
+                    if let Some(scope) = scope.with_conditions(self.include(&fragment.directives)) {
+                        let type_condition = fragment
+                            .type_condition
+                            .as_ref()
+                            .map(|condition| condition.node.on.node.as_str())
+                            .unwrap_or(scope.type_condition);
+                        self.collect(
+                            scope.with_fragment(type_condition),
+                            &fragment.selection_set.node,
+                            fragments,
+                            spread,
+                            selected,
+                        );
+                    }
+                }
+            }
+        }
+    }
 
-                    let (include, skip) = conditions.into_variable_tuple();
-                    let request_args = gql_field
-                        .arguments
-                        .iter()
-                        .map(|(k, v)| (k.node.as_str().to_string(), v.node.to_owned()))
-                        .collect::<HashMap<_, _>>();
-
-                    let parent_fragment = parent_fragment.map(|s| s.to_owned());
-                    // Check if the field is present in the schema index
-                    if let Some(field_def) = self.index.get_field(type_condition, field_name) {
-                        let mut args = Vec::with_capacity(request_args.len());
-                        if let QueryField::Field((_, schema_args)) = field_def {
-                            for (arg_name, arg_value) in schema_args {
-                                let type_of = arg_value.of_type.clone();
-                                let id = ArgId::new(self.arg_id.next());
-                                let name = arg_name.clone();
-                                let default_value = arg_value
-                                    .default_value
-                                    .as_ref()
-                                    .and_then(|v| v.to_owned().try_into().ok());
-                                args.push(Arg {
-                                    id,
-                                    name,
-                                    type_of,
-                                    value: request_args.get(arg_name).cloned(),
-                                    default_value,
-                                });
-                            }
-                        }
+    fn iter(
+        &self,
+        selection: &[&SelectionSet],
+        type_condition: &str,
+        fragments: &HashMap<&str, &FragmentDefinition>,
+    ) -> Vec<Field<Value>> {
+        let mut selected = Vec::new();
+        let mut spread = HashSet::new();
+        for selection in selection {
+            self.collect(
+                Scope::new(type_condition),
+                selection,
+                fragments,
+                &mut spread,
+                &mut selected,
+            );
+        }
 
-                        let type_of = match field_def {
-                            QueryField::Field((field_def, _)) => field_def.of_type.clone(),
-                            QueryField::InputField(field_def) => field_def.of_type.clone(),
-                        };
+        selected
+            .into_iter()
+            .filter_map(|selected| self.to_field(selected, fragments))
+            .collect()
+    }
 
-                        let id = FieldId::new(self.field_id.next());
+    fn to_field(
+        &self,
+        selected: Selected,
+        fragments: &HashMap<&str, &FragmentDefinition>,
+    ) -> Option<Field<Value>> {
+        let Selected { output_name, field: gql_field, pos, selection, scope } = selected;
+        let type_condition = scope.type_condition;
+        let field_name = gql_field.name.node.as_str();
+
+        let mut directives = Vec::with_capacity(gql_field.directives.len());
+        for directive in &gql_field.directives {
+            let directive = &directive.node;
+            if directive.name.node == "skip" || directive.name.node == "include" {
+                continue;
+            }
+            let arguments = directive
+                .arguments
+                .iter()
+                .map(|(k, v)| (k.node.to_string(), v.node.clone()))
+                .collect::<Vec<_>>();
 
-                        // Recursively gather child fields for the selection set
-                        let child_fields = self.iter(
-                            None,
-                            &gql_field.selection_set.node,
-                            type_of.name(),
-                            fragments,
-                        );
+            directives.push(JitDirective { name: directive.name.to_string(), arguments });
+        }
 
-                        let ir = match field_def {
-                            QueryField::Field((field_def, _)) => field_def.resolver.clone(),
-                            _ => None,
-                        };
+        let parent_fragment = scope.parent_fragment.map(|s| s.to_owned());
+        let outer_type_conditions = scope
+            .outer_type_conditions
+            .iter()
+            .map(|s| s.to_string())
+            .collect();
+
+        // Check if the field is present in the schema index
+        if let Some(field_def) = self.index.get_field(type_condition, field_name) {
+            let request_args = gql_field
+                .arguments
+                .iter()
+                .map(|(k, v)| (k.node.as_str().to_string(), v.node.to_owned()))
+                .collect::<HashMap<_, _>>();
+            let mut args = Vec::with_capacity(request_args.len());
+            if let QueryField::Field((_, schema_args)) = field_def {
+                for (arg_name, arg_value) in schema_args {
+                    let type_of = arg_value.of_type.clone();
+                    let id = ArgId::new(self.arg_id.next());
+                    let name = arg_name.clone();
+                    let default_value = arg_value
+                        .default_value
+                        .as_ref()
+                        .and_then(|v| v.to_owned().try_into().ok());
+                    args.push(Arg {
+                        id,
+                        name,
+                        type_of,
+                        value: request_args.get(arg_name).cloned(),
+                        default_value,
+                    });
+                }
+            }
 
-                        let scalar = if self.index.type_is_scalar(type_of.name()) {
-                            Some(
-                                scalar::Scalar::find(type_of.name())
-                                    .cloned()
-                                    .unwrap_or(scalar::Scalar::Empty),
-                            )
-                        } else {
-                            None
-                        };
+            let type_of = match field_def {
+                QueryField::Field((field_def, _)) => field_def.of_type.clone(),
+                QueryField::InputField(field_def) => field_def.of_type.clone(),
+            };
 
-                        // Create the field with its child fields in `selection`
-                        let field = Field {
-                            id,
-                            selection: child_fields,
-                            parent_fragment,
-                            name: field_name.to_string(),
-                            output_name: output_name.to_string(),
-                            ir,
-                            is_enum: self.index.type_is_enum(type_of.name()),
-                            type_of,
-                            type_condition: Some(type_condition.to_string()),
-                            skip,
-                            include,
-                            args,
-                            pos: selection.pos.into(),
-                            directives,
-                            scalar,
-                        };
+            let id = FieldId::new(self.field_id.next());
 
-                        fields.push(field);
-                    } else if field_name == "__typename" {
-                        let typename_field = Field {
-                            id: FieldId::new(self.field_id.next()),
-                            name: field_name.to_string(),
-                            output_name: output_name.to_string(),
-                            ir: None,
-                            type_of: Type::Named { name: "String".to_owned(), non_null: true },
-                            type_condition: Some(type_condition.to_string()),
-                            skip,
-                            include,
-                            args: Vec::new(),
-                            pos: selection.pos.into(),
-                            selection: vec![], // __typename has no child selection
-                            parent_fragment,
-                            directives,
-                            is_enum: false,
-                            scalar: Some(scalar::Scalar::Empty),
-                        };
+            // Recursively gather child fields for the selection set
+            let child_fields = self.iter(&selection, type_of.name(), fragments);
+
+            let ir = match field_def {
+                QueryField::Field((field_def, _)) => field_def.resolver.clone(),
+                _ => None,
+            };
 
-                        fields.push(typename_field);
+            let scalar = if self.index.type_is_scalar(type_of.name()) {
+                Some(
+                    scalar::Scalar::find(type_of.name())
+                        .cloned()
+                        .unwrap_or(scalar::Scalar::Empty),
+                )
+            } else {
+                None
+            };
+
+            // Create the field with its child fields in `selection`
+            Some(Field {
+                id,
+                selection: child_fields,
+                parent_fragment,
+                name: field_name.to_string(),
+                output_name: output_name.to_string(),
+                ir,
+                is_enum: self.index.type_is_enum(type_of.name()),
+                type_of,
+                type_condition: Some(type_condition.to_string()),
+                outer_type_conditions,
+                skip: scope.skip,
+                include: scope.include,
+                conditions: scope.conditions,
+                args,
+                pos: pos.into(),
+                directives,
+                scalar,
+            })
+        } else if field_name == "__typename" {
+            Some(Field {
+                id: FieldId::new(self.field_id.next()),
+                name: field_name.to_string(),
+                output_name: output_name.to_string(),
+                ir: None,
+                type_of: Type::Named { name: "String".to_owned(), non_null: true },
+                type_condition: Some(type_condition.to_string()),
+                outer_type_conditions,
+                skip: scope.skip,
+                include: scope.include,
+                conditions: scope.conditions,
+                args: Vec::new(),
+                pos: pos.into(),
+                selection: vec![], // __typename has no child selection
+                parent_fragment,
+                directives,
+                is_enum: false,
+                scalar: Some(scalar::Scalar::Empty),
+            })
+        } else {
+            None
+        }
+    }
+
+    /// Fragments that spread themselves have no end.
+    fn validate_fragments(
+        fragments: &HashMap<&str, &FragmentDefinition>,
+    ) -> Result<(), BuildError> {
+        fn spreads<'b>(selection: &'b SelectionSet, names: &mut Vec<&'b str>) {
+            for item in &selection.items {
+                match &item.node {
+                    Selection::Field(field) => spreads(&field.node.selection_set.node, names),
+                    Selection::InlineFragment(fragment) => {
+                        spreads(&fragment.node.selection_set.node, names)
                     }
-                }
-                Selection::FragmentSpread(Positioned { node: fragment_spread, .. }) => {
-                    if let Some(fragment) =
-                        fragments.get(fragment_spread.fragment_name.node.as_str())
-                    {
-                        fragments_fields.extend(self.iter(
-                            Some(fragment.type_condition.node.on.node.as_str()),
-                            &fragment.selection_set.node,
-                            fragment.type_condition.node.on.node.as_str(),
-                            fragments,
-                        ));
+                    Selection::FragmentSpread(spread) => {
+                        names.push(spread.node.fragment_name.node.as_str())
                     }
                 }
-                Selection::InlineFragment(Positioned { node: fragment, .. }) => {
-                    let type_of = fragment
-                        .type_condition
-                        .as_ref()
-                        .map(|cond| cond.node.on.node.as_str())
-                        .unwrap_or(type_condition);
-                    fragments_fields.extend(self.iter(
-                        Some(type_of),
-                        &fragment.selection_set.node,
-                        type_of,
-                        fragments,
-                    ));
-                }
             }
         }
-        for field in fragments_fields {
-            if visited.contains(field.output_name.as_str()) {
-                continue;
+
+        // repeatedly leave out the fragments that spread no other fragment
+        let mut remaining = fragments
+            .iter()
+            .map(|(name, fragment)| {
+                let mut names = Vec::new();
+                spreads(&fragment.selection_set.node, &mut names);
+                (*name, names)
+            })
+            .collect::<BTreeMap<_, _>>();
+        loop {
+            let names = remaining.keys().copied().collect::<HashSet<_>>();
+            remaining.retain(|_, spreads| spreads.iter().any(|spread| names.contains(spread)));
+            if remaining.len() == names.len() {
+                break;
             }
-            fields.push(field);
         }
-        fields.sort_by(|a, b| a.id.cmp(&b.id));
-        fields
+
+        match remaining.into_keys().next() {
+            Some(name) => Err(BuildError::FragmentCycle(name.to_string())),
+            None => Ok(()),
+        }
+    }
+
+    fn is_introspection(
+        selection: &SelectionSet,
+        fragments: &HashMap<&str, &FragmentDefinition>,
+    ) -> bool {
+        selection.items.iter().any(|item| match &item.node {
+            Selection::Field(field) => {
+                matches!(field.node.name.node.as_str(), "__schema" | "__type")
+            }
+            Selection::InlineFragment(fragment) => {
+                Self::is_introspection(&fragment.node.selection_set.node, fragments)
+            }
+            Selection::FragmentSpread(spread) => fragments
+                .get(spread.node.fragment_name.node.as_str())
+                .is_some_and(|fragment| {
+                    Self::is_introspection(&fragment.selection_set.node, fragments)
+                }),
+        })
     }
+
     #[inline(always)]
     fn get_type(&self, ty: OperationType) -> Option<&str> {
         match ty {
@@ -361,18 +529,13 @@ impl<'a> Builder<'a> {
         let name = self
             .get_type(operation.ty)
             .ok_or(BuildError::RootOperationTypeNotDefined { operation: operation.ty })?;
-        let fields = self.iter(None, &operation.selection_set.node, name, &fragments);
+        Self::validate_fragments(&fragments)?;
+        let fields = self.iter(&[&operation.selection_set.node], name, &fragments);
 
-        let is_introspection_query = operation.selection_set.node.items.iter().any(|f| {
-            if let Selection::Field(Positioned { node: gql_field, .. }) = &f.node {
-                let query = gql_field.name.node.as_str();
-                query == "__schema" || query == "__type"
-            } else {
-                false
-            }
-        });
+        let is_introspection_query =
+            Self::is_introspection(&operation.selection_set.node, &fragments);
 
-        let plan = OperationPlan::new(
+        let mut plan = OperationPlan::new(
             name,
             fields,
             operation.ty,
@@ -380,6 +543,23 @@ impl<'a> Builder<'a> {
             is_introspection_query,
             Some(self.index.get_interfaces()),
         );
+        plan.variables = operation
+            .variable_definitions
+            .iter()
+            .map(|definition| {
+                let definition = &definition.node;
+                (
+                    definition.name.node.to_string(),
+                    VariableDefinition {
+                        is_nullable: definition.var_type.node.nullable,
+                        default_value: definition
+                            .default_value
+                            .as_ref()
+                            .map(|value| value.node.clone()),
+                    },
+                )
+            })
+            .collect();
         Ok(plan)
     }
 }
diff --git a/src/core/jit/error.rs b/src/core/jit/error.rs
index 086b604..6b8effd 100644
--- a/src/core/jit/error.rs
+++ b/src/core/jit/error.rs
@@ -14,6 +14,8 @@ pub enum BuildError {
     OperationNotFound(String),
     #[error("Operation name required in request")]
     OperationNameRequired,
+    #[error(r#"Fragment "{0}" spreads itself"#)]
+    FragmentCycle(String),
 }
 
 #[derive(Error, Debug, Clone, PartialEq, Eq)]
diff --git a/src/core/jit/exec_const.rs b/src/core/jit/exec_const.rs
index 1606f05..0af73f8 100644
--- a/src/core/jit/exec_const.rs
+++ b/src/core/jit/exec_const.rs
@@ -56,7 +56,13 @@ impl ConstValueExecutor {
 
         let is_introspection_query =
             req_ctx.server.get_enable_introspection() && self.plan.is_introspection_query;
-        let variables = &request.variables;
+        let mut variables = request.variables.clone();
+        for (name, definition) in &self.plan.variables {
+            if let (None, Some(value)) = (variables.get(name), &definition.default_value) {
+                variables.insert(name.clone(), value.clone());
+            }
+        }
+        let variables = &variables;
 
         // Attempt to skip unnecessary fields
         let Ok(plan) = transform::Skip::new(variables)
@@ -71,9 +77,6 @@ impl ConstValueExecutor {
         };
 
         // Attempt to replace variables in the plan with the actual values
-        // TODO: operation from [ExecutableDocument] could contain definitions for
-        // default values of arguments. That info should be passed to
-        // [InputResolver] to resolve defaults properly
         let result = InputResolver::new(plan).resolve_input(variables);
 
         let plan = match result {
@@ -91,7 +94,7 @@ impl ConstValueExecutor {
 
         let exec = ConstValueExec::new(&plan, req_ctx);
         // PERF: remove this particular clone?
-        let vars = request.variables.clone();
+        let vars = variables.clone();
         let exe = Executor::new(&plan, exec);
         let store = exe.store().await;
         let synth = Synth::new(&plan, store, vars);
@@ -187,6 +190,9 @@ impl IRExecutor for ConstValueExec<'_> {
                     }
                 })?)
             }
+            Some(value) if !self.plan.field_is_part_of_value(field, value) => {
+                Ok(Self::Output::default())
+            }
             _ => Ok(self.call(ctx, ir).await?),
         }
     }
diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index edaee37..d4b279b 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -79,7 +79,10 @@ impl<Input> Field<Input> {
         let skip = eval(self.skip.as_ref(), variables, false);
         let include = eval(self.include.as_ref(), variables, true);
 
-        skip == include
+        skip || !include
+            || self.conditions.iter().any(|(variable, expected)| {
+                eval(Some(variable), variables, *expected) != *expected
+            })
     }
 
     /// Returns the __typename of the value related to this field
@@ -183,8 +186,13 @@ pub struct Field<Input> {
     /// interface, type, union, input type.
     /// See [spec](https://spec.graphql.org/October2021/#sec-Type-Conditions)
     pub type_condition: Option<String>,
+    /// Type conditions of the fragments around the one in `type_condition`
+    pub outer_type_conditions: Vec<String>,
     pub skip: Option<Variable>,
     pub include: Option<Variable>,
+    /// Conditions of the fragments the field is written in: the variables and
+    /// the values they should have
+    pub conditions: Vec<(Variable, bool)>,
     pub args: Vec<Arg<Input>>,
     pub selection: Vec<Field<Input>>,
     pub parent_fragment: Option<String>,
@@ -214,7 +222,7 @@ impl<'a, Input> Iterator for DFS<'a, Input> {
     }
 }
 
-#[derive(Clone, Debug, PartialEq)]
+#[derive(Clone, Debug, PartialEq, Eq, Hash)]
 pub struct Variable(String);
 
 impl Variable {
@@ -241,6 +249,7 @@ impl<Input> Field<Input> {
             ir: self.ir,
             type_of: self.type_of,
             type_condition: self.type_condition,
+            outer_type_conditions: self.outer_type_conditions,
             selection: self
                 .selection
                 .into_iter()
@@ -249,6 +258,7 @@ impl<Input> Field<Input> {
             parent_fragment: None,
             skip: self.skip,
             include: self.include,
+            conditions: self.conditions,
             pos: self.pos,
             args: self
                 .args
@@ -318,6 +328,14 @@ pub struct OperationPlan<Input> {
     pub selection: Vec<Field<Input>>,
     pub before: Option<IR>,
     pub interfaces: Option<HashSet<String>>,
+    pub variables: HashMap<String, VariableDefinition>,
+}
+
+/// A variable as the operation declares it
+#[derive(Debug, Clone)]
+pub struct VariableDefinition {
+    pub is_nullable: bool,
+    pub default_value: Option<ConstValue>,
 }
 
 impl<Input> OperationPlan<Input> {
@@ -343,6 +361,7 @@ impl<Input> OperationPlan<Input> {
             min_cache_ttl: self.min_cache_ttl,
             before: self.before,
             interfaces: None,
+            variables: self.variables,
         })
     }
 }
@@ -372,6 +391,7 @@ impl<Input> OperationPlan<Input> {
             min_cache_ttl: None,
             before: Default::default(),
             interfaces,
+            variables: Default::default(),
         }
     }
 
@@ -428,7 +448,11 @@ impl<Input> OperationPlan<Input> {
     {
         match &field.type_condition {
             Some(type_condition) => match value.get_type_name() {
-                Some(value_type) => self.index.is_type_implements(value_type, type_condition),
+                Some(value_type) => field
+                    .outer_type_conditions
+                    .iter()
+                    .chain(std::iter::once(type_condition))
+                    .all(|condition| self.index.is_type_implements(value_type, condition)),
                 // if there is no __typename in value that means there is a bug in implementation
                 // such we haven't resolved the concrete type or type shouldn't be
                 // inferred here at all and we should just use the field
diff --git a/src/core/jit/synth/synth.rs b/src/core/jit/synth/synth.rs
index 6b95b5c..ddf9169 100644
--- a/src/core/jit/synth/synth.rs
+++ b/src/core/jit/synth/synth.rs
@@ -43,24 +43,53 @@ where
         let mut path = Vec::new();
         let root_name = self.plan.root_name();
 
-        for child in self.plan.selection.iter() {
-            if !self.include(child) {
-                continue;
-            }
+        let fields = self
+            .plan
+            .selection
+            .iter()
+            .filter(|child| self.include(child));
+        for (child, same) in Self::merge(fields) {
             // TODO: in case of error set `child.output_name` to null
             // and append error to response error array
-            let val = self.iter(child, None, &DataPath::new(), &mut path, Some(root_name))?;
+            let val = self.iter(
+                child,
+                &same,
+                None,
+                &DataPath::new(),
+                &mut path,
+                Some(root_name),
+            )?;
             data.insert_key(&child.output_name, val);
         }
 
         Ok(Output::object(data))
     }
 
+    /// Puts together the fields with the same name in the output: the same
+    /// field selected in different places
+    fn merge(
+        fields: impl Iterator<Item = &'a Field<Value>>,
+    ) -> Vec<(&'a Field<Value>, Vec<&'a Field<Value>>)> {
+        let mut merged: Vec<(&Field<Value>, Vec<&Field<Value>>)> =
+            Vec::with_capacity(fields.size_hint().1.unwrap_or_default());
+        for field in fields {
+            match merged
+                .iter_mut()
+                .find(|(first, _)| first.output_name == field.output_name)
+            {
+                Some((_, same)) => same.push(field),
+                None => merged.push((field, Vec::new())),
+            }
+        }
+        merged
+    }
+
     #[allow(clippy::too_many_arguments)]
     #[inline(always)]
     fn iter<Output>(
         &'a self,
         node: &'a Field<Value>,
+        same: &[&'a Field<Value>],
         value: Option<&'a Value>,
         data_path: &DataPath,
         path: &mut Vec<PathSegment<'a>>,
@@ -70,7 +99,7 @@ where
         Output: JsonLike<'a>,
     {
         path.push(PathSegment::Field(Cow::Borrowed(&node.output_name)));
-        let result = self.iter_field(node, value, data_path, path, root_name);
+        let result = self.iter_field(node, same, value, data_path, path, root_name);
         path.pop();
         result
     }
@@ -80,6 +109,7 @@ where
     fn iter_field<Output>(
         &'a self,
         node: &'a Field<Value>,
+        same: &[&'a Field<Value>],
         value: Option<&'a Value>,
         data_path: &DataPath,
         path: &mut Vec<PathSegment<'a>>,
@@ -105,10 +135,10 @@ where
                 if node.type_of.is_list() != is_list && !(is_list && node.scalar.is_some()) {
                     return self.node_nullable_guard(node, path, None);
                 }
-                self.iter_inner(node, &node.type_of, value, data_path, path)
+                self.iter_inner(node, same, &node.type_of, value, data_path, path)
             }
             None => match value {
-                Some(result) => self.iter_inner(node, &node.type_of, result, data_path, path),
+                Some(result) => self.iter_inner(node, same, &node.type_of, result, data_path, path),
                 None => self.node_nullable_guard(node, path, root_name),
             },
         }
@@ -161,6 +191,7 @@ where
     fn iter_inner<Output>(
         &'a self,
         node: &'a Field<Value>,
+        same: &[&'a Field<Value>],
         type_of: &Type,
         value: &'a Value,
         data_path: &DataPath,
@@ -184,8 +215,14 @@ where
             let mut ans = Vec::with_capacity(arr.len());
             for (i, val) in arr.iter().enumerate() {
                 path.push(PathSegment::Index(i));
-                let val =
-                    self.iter_inner(node, of_type, val, &data_path.clone().with_index(i), path)?;
+                let val = self.iter_inner(
+                    node,
+                    same,
+                    of_type,
+                    val,
+                    &data_path.clone().with_index(i),
+                    path,
+                )?;
                 path.pop();
                 ans.push(val);
             }
@@ -223,23 +260,24 @@ where
         } else {
             match value.as_object() {
                 Some(obj) => {
-                    let mut fields = Vec::with_capacity(node.selection.len());
-
-                    for child in node
+                    let children = node
                         .iter()
+                        .chain(same.iter().flat_map(|node| node.iter()))
                         .filter(|field| self.plan.field_is_part_of_value(field, value))
-                    {
                         // all checks for skip must occur in `iter_inner`
                         // and include be checked before calling `iter` or recursing.
-                        if self.include(child) {
-                            let value = if child.name == "__typename" {
-                                Output::string(node.value_type(value).into())
-                            } else {
-                                let val = obj.get_key(child.name.as_str());
-                                self.iter(child, val, data_path, path, None)?
-                            };
-                            fields.push((child.output_name.as_str(), value));
-                        }
+                        .filter(|field| self.include(field));
+                    let children = Self::merge(children);
+                    let mut fields = Vec::with_capacity(children.len());
+
+                    for (child, same) in children {
+                        let value = if child.name == "__typename" {
+                            Output::string(node.value_type(value).into())
+                        } else {
+                            let val = obj.get_key(child.name.as_str());
+                            self.iter(child, &same, val, data_path, path, None)?
+                        };
+                        fields.push((child.output_name.as_str(), value));
                     }
 
                     Ok(Output::object(Output::JsonObject::from_vec(fields)))
diff --git a/src/core/jit/transform/input_resolver.rs b/src/core/jit/transform/input_resolver.rs
index f425d17..7ed8099 100644
--- a/src/core/jit/transform/input_resolver.rs
+++ b/src/core/jit/transform/input_resolver.rs
@@ -15,6 +15,11 @@ use crate::core::Type;
 pub trait InputResolvable {
     type Output;
 
+    /// Removes the variables, or returns None when the value is one of them
+    fn without_variables(self, is_removed: &impl Fn(&str) -> bool) -> Option<Self>
+    where
+        Self: Sized;
+
     fn resolve(
         self,
         variables: &Variables<Self::Output>,
@@ -24,6 +29,25 @@ pub trait InputResolvable {
 impl InputResolvable for Value {
     type Output = ConstValue;
 
+    fn without_variables(self, is_removed: &impl Fn(&str) -> bool) -> Option<Self> {
+        match self {
+            Value::Variable(name) if is_removed(&name) => None,
+            Value::List(items) => Some(Value::List(
+                items
+                    .into_iter()
+                    .map(|item| item.without_variables(is_removed).unwrap_or(Value::Null))
+                    .collect(),
+            )),
+            Value::Object(object) => Some(Value::Object(
+                object
+                    .into_iter()
+                    .filter_map(|(key, value)| Some((key, value.without_variables(is_removed)?)))
+                    .collect(),
+            )),
+            value => Some(value),
+        }
+    }
+
     fn resolve(self, variables: &Variables<ConstValue>) -> Result<Self::Output, ResolveInputError> {
         self.into_const_with(|name| {
             variables
@@ -58,10 +82,19 @@ where
         variables: &Variables<Output>,
     ) -> Result<OperationPlan<Output>, ResolveInputError> {
         let index = self.plan.index;
+        let definitions = &self.plan.variables;
+        let is_undefined = |name: &str| {
+            variables.get(name).is_none()
+                && definitions
+                    .get(name)
+                    .is_some_and(|definition| definition.is_nullable)
+        };
         let mut selection = self
             .plan
             .selection
             .into_iter()
+            // optional variables without a value are the same as not mentioning them
+            .map(|field| Self::remove_undefined(field, &is_undefined))
             .map(|field| field.try_map(&|value| value.resolve(variables)))
             // Call `resolve_field` to verify/populate defaults for args
             // because the previous map will just try convert values based on
@@ -87,9 +120,28 @@ where
             interfaces: None,
             selection,
             before: self.plan.before,
+            variables: self.plan.variables,
         })
     }
 
+    fn remove_undefined(
+        mut field: Field<Input>,
+        is_undefined: &impl Fn(&str) -> bool,
+    ) -> Field<Input> {
+        for arg in field.args.iter_mut() {
+            arg.value = arg
+                .value
+                .take()
+                .and_then(|value| value.without_variables(is_undefined));
+        }
+        field.selection = field
+            .selection
+            .into_iter()
+            .map(|field| Self::remove_undefined(field, is_undefined))
+            .collect();
+        field
+    }
+
     // resolves the variables in selection set mustache template for graphql query.
     fn resolve_graphql_selection_set(
         base_field: &mut [Field<Output>],
diff --git a/src/core/jit/transform/skip.rs b/src/core/jit/transform/skip.rs
index 0ecd315..b77ebbe 100644
--- a/src/core/jit/transform/skip.rs
+++ b/src/core/jit/transform/skip.rs
@@ -36,8 +36,24 @@ where
 
 /// Drops all the fields that are not needed based on the set variables
 fn skip<Input, Var: for<'b> JsonLike<'b>>(fields: &mut Vec<Field<Input>>, vars: &Variables<Var>) {
-    fields.retain(|f| !f.skip(vars));
+    let mut needed: Vec<Field<Input>> = Vec::with_capacity(fields.len());
+    for field in fields.drain(..).filter(|field| !field.skip(vars)) {
+        // the same field selected under different conditions is one field
+        match needed.iter_mut().find(|other| is_same(other, &field)) {
+            Some(other) => other.selection.extend(field.selection),
+            None => needed.push(field),
+        }
+    }
+    *fields = needed;
+
     for field in fields {
         skip(&mut field.selection, vars);
     }
 }
+
+fn is_same<Input>(left: &Field<Input>, right: &Field<Input>) -> bool {
+    left.output_name == right.output_name
+        && left.name == right.name
+        && left.type_condition == right.type_condition
+        && left.outer_type_conditions == right.outer_type_conditions
+}
-- 
2.43.0


From 5796374425632dec2da104815d9a1899ca807dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:07 +0000
Subject: [PATCH 073/122] fix: run the root fields of a mutation one after
 another

---
 src/core/jit/exec.rs  | 14 +++++++++++---
 src/core/jit/model.rs |  4 ++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/core/jit/exec.rs b/src/core/jit/exec.rs
index 0dcd772..99fecb2 100644
--- a/src/core/jit/exec.rs
+++ b/src/core/jit/exec.rs
@@ -74,13 +74,21 @@ where
     }
 
     async fn init(&mut self) {
-        join_all(self.request.plan().selection.iter().map(|field| async {
+        let fields = self.request.plan().selection.iter().map(|field| async {
             let ctx = Context::new(field, self.request);
             // TODO: with_args should be called on inside iter_field on any level, not only
             // for root fields
             self.execute(&ctx).await
-        }))
-        .await;
+        });
+
+        if self.request.plan().is_mutation() {
+            // the effects of mutations happen one after another
+            for field in fields {
+                let _ = field.await;
+            }
+        } else {
+            join_all(fields).await;
+        }
     }
 
     async fn iter_field<'b>(
diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index d4b279b..4b740fe 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -406,6 +406,10 @@ impl<Input> OperationPlan<Input> {
     }
 
     /// Check if current graphQL operation is query
+    pub fn is_mutation(&self) -> bool {
+        self.operation_type == OperationType::Mutation
+    }
+
     pub fn is_query(&self) -> bool {
         self.operation_type == OperationType::Query
     }
-- 
2.43.0


From e37c00015e2324cd2d5d7960a19111039ee83e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:15 +0000
Subject: [PATCH 074/122] fix: a single value stands for a list of it

---
 src/core/jit/transform/input_resolver.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core/jit/transform/input_resolver.rs b/src/core/jit/transform/input_resolver.rs
index 7ed8099..7b54674 100644
--- a/src/core/jit/transform/input_resolver.rs
+++ b/src/core/jit/transform/input_resolver.rs
@@ -223,15 +223,21 @@ where
             return Ok(None);
         };
 
-        let Some(def) = index.get_input_type_definition(type_of.name()) else {
+        if value.is_null() {
             return Ok(Some(value));
-        };
+        }
 
-        if value.is_null() {
+        // a single value in place of a list is the list of that value
+        if type_of.is_list() && value.as_array().is_none() {
+            value = Output::array(vec![value]);
+        }
+
+        let def = index.get_input_type_definition(type_of.name());
+        if def.is_none() && !type_of.is_list() {
             return Ok(Some(value));
         }
 
-        if let Some(obj) = value.as_object_mut() {
+        if let (Some(obj), Some(def)) = (value.as_object_mut(), def) {
             for arg_field in &def.fields {
                 let parent_name = format!("{}.{}", parent_name, arg_name);
                 let field_value = obj.get_key(&arg_field.name).cloned();
-- 
2.43.0


From 218c7e7dd80ca083ac97eb4b88c31a1242560910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:15 +0000
Subject: [PATCH 075/122] fix: merged fields keep the order of the selection

---
 src/core/jit/builder.rs        |  9 ++++++---
 src/core/jit/transform/skip.rs | 10 +++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index 9fb8672..86deb3c 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -218,9 +218,12 @@ impl<'a> Builder<'a> {
                         .as_ref()
                         .map(|alias| alias.node.as_str())
                         .unwrap_or(field.name.node.as_str());
-                    let same = selected.iter_mut().find(|other| {
-                        other.output_name == output_name && other.scope.is_same(&scope)
-                    });
+                    // only the last one, others in between could be merged with it later
+                    let same = selected
+                        .iter_mut()
+                        .rev()
+                        .find(|other| other.output_name == output_name)
+                        .filter(|other| other.scope.is_same(&scope));
 
                     match same {
                         Some(other) => other.selection.push(&field.selection_set.node),
diff --git a/src/core/jit/transform/skip.rs b/src/core/jit/transform/skip.rs
index b77ebbe..87d7820 100644
--- a/src/core/jit/transform/skip.rs
+++ b/src/core/jit/transform/skip.rs
@@ -39,7 +39,12 @@ fn skip<Input, Var: for<'b> JsonLike<'b>>(fields: &mut Vec<Field<Input>>, vars:
     let mut needed: Vec<Field<Input>> = Vec::with_capacity(fields.len());
     for field in fields.drain(..).filter(|field| !field.skip(vars)) {
         // the same field selected under different conditions is one field
-        match needed.iter_mut().find(|other| is_same(other, &field)) {
+        match needed
+            .iter_mut()
+            .rev()
+            .find(|other| other.output_name == field.output_name)
+            .filter(|other| is_same(other, &field))
+        {
             Some(other) => other.selection.extend(field.selection),
             None => needed.push(field),
         }
@@ -52,8 +57,7 @@ fn skip<Input, Var: for<'b> JsonLike<'b>>(fields: &mut Vec<Field<Input>>, vars:
 }
 
 fn is_same<Input>(left: &Field<Input>, right: &Field<Input>) -> bool {
-    left.output_name == right.output_name
-        && left.name == right.name
+    left.name == right.name
         && left.type_condition == right.type_condition
         && left.outer_type_conditions == right.outer_type_conditions
 }
-- 
2.43.0


From 2cd779cde10421eb3e9b36c5ae37d849164292e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 076/122] fix: the name an upstream has for a type doesn't
 matter where the schema knows the type

---
 src/core/blueprint/index.rs |  6 ++++++
 src/core/jit/builder.rs     | 11 ++++++++++-
 src/core/jit/model.rs       | 37 +++++++++++++++++++++++++------------
 src/core/jit/synth/synth.rs |  2 +-
 4 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/src/core/blueprint/index.rs b/src/core/blueprint/index.rs
index 5fa09a9..f4a7801 100644
--- a/src/core/blueprint/index.rs
+++ b/src/core/blueprint/index.rs
@@ -50,6 +50,12 @@ impl Index {
             .collect()
     }
 
+    pub fn type_is_object(&self, type_name: &str) -> bool {
+        let def = self.map.get(type_name).map(|(def, _)| def);
+
+        matches!(def, Some(Definition::Object(_)))
+    }
+
     pub fn type_is_enum(&self, type_name: &str) -> bool {
         let def = self.map.get(type_name).map(|(def, _)| def);
 
diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index 86deb3c..7165a28 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -68,6 +68,7 @@ impl Conditions {
 /// depends on
 #[derive(Clone, PartialEq, Eq, Hash)]
 struct Scope<'b> {
+    parent_type: &'b str,
     parent_fragment: Option<&'b str>,
     type_condition: &'b str,
     outer_type_conditions: Vec<&'b str>,
@@ -79,6 +80,7 @@ struct Scope<'b> {
 impl<'b> Scope<'b> {
     fn new(type_condition: &'b str) -> Self {
         Self {
+            parent_type: type_condition,
             parent_fragment: None,
             type_condition,
             outer_type_conditions: Vec::new(),
@@ -240,9 +242,10 @@ impl<'a> Builder<'a> {
                     let name = fragment_spread.fragment_name.node.as_str();
                     let scope = scope.with_conditions(self.include(&fragment_spread.directives));
                     if let (Some(scope), Some(fragment)) = (scope, fragments.get(name)) {
+                        let type_condition = fragment.type_condition.node.on.node.as_str();
                         if spread.insert((name, scope.clone())) {
                             self.collect(
-                                scope.with_fragment(&fragment.type_condition.node.on.node),
+                                scope.with_fragment(type_condition),
                                 &fragment.selection_set.node,
                                 fragments,
                                 spread,
@@ -320,6 +323,10 @@ impl<'a> Builder<'a> {
         }
 
         let parent_fragment = scope.parent_fragment.map(|s| s.to_owned());
+        let parent_object = self
+            .index
+            .type_is_object(scope.parent_type)
+            .then(|| scope.parent_type.to_owned());
         let outer_type_conditions = scope
             .outer_type_conditions
             .iter()
@@ -390,6 +397,7 @@ impl<'a> Builder<'a> {
                 type_of,
                 type_condition: Some(type_condition.to_string()),
                 outer_type_conditions,
+                parent_object,
                 skip: scope.skip,
                 include: scope.include,
                 conditions: scope.conditions,
@@ -407,6 +415,7 @@ impl<'a> Builder<'a> {
                 type_of: Type::Named { name: "String".to_owned(), non_null: true },
                 type_condition: Some(type_condition.to_string()),
                 outer_type_conditions,
+                parent_object,
                 skip: scope.skip,
                 include: scope.include,
                 conditions: scope.conditions,
diff --git a/src/core/jit/model.rs b/src/core/jit/model.rs
index 4b740fe..b67a454 100644
--- a/src/core/jit/model.rs
+++ b/src/core/jit/model.rs
@@ -80,17 +80,10 @@ impl<Input> Field<Input> {
         let include = eval(self.include.as_ref(), variables, true);
 
         skip || !include
-            || self.conditions.iter().any(|(variable, expected)| {
-                eval(Some(variable), variables, *expected) != *expected
-            })
-    }
-
-    /// Returns the __typename of the value related to this field
-    pub fn value_type<'a, Output>(&'a self, value: &'a Output) -> &'a str
-    where
-        Output: TypedValue<'a>,
-    {
-        value.get_type_name().unwrap_or(self.type_of.name())
+            || self
+                .conditions
+                .iter()
+                .any(|(variable, expected)| eval(Some(variable), variables, *expected) != *expected)
     }
 
     pub fn iter(&self) -> impl Iterator<Item = &Field<Input>> {
@@ -188,6 +181,8 @@ pub struct Field<Input> {
     pub type_condition: Option<String>,
     /// Type conditions of the fragments around the one in `type_condition`
     pub outer_type_conditions: Vec<String>,
+    /// The type the field is selected on, when it's an object type
+    pub parent_object: Option<String>,
     pub skip: Option<Variable>,
     pub include: Option<Variable>,
     /// Conditions of the fragments the field is written in: the variables and
@@ -250,6 +245,7 @@ impl<Input> Field<Input> {
             type_of: self.type_of,
             type_condition: self.type_condition,
             outer_type_conditions: self.outer_type_conditions,
+            parent_object: self.parent_object,
             selection: self
                 .selection
                 .into_iter()
@@ -442,6 +438,19 @@ impl<Input> OperationPlan<Input> {
         self.index.validate_enum_value(field.type_of.name(), value)
     }
 
+    /// Returns the __typename of the value related to the field
+    pub fn value_type<'a, Output>(&'a self, field: &'a Field<Input>, value: &'a Output) -> &'a str
+    where
+        Output: TypedValue<'a>,
+    {
+        let type_name = field.type_of.name();
+        if self.index.type_is_object(type_name) {
+            type_name
+        } else {
+            value.get_type_name().unwrap_or(type_name)
+        }
+    }
+
     pub fn field_is_part_of_value<'a, Output>(
         &'a self,
         field: &'a Field<Input>,
@@ -451,7 +460,11 @@ impl<Input> OperationPlan<Input> {
         Output: TypedValue<'a>,
     {
         match &field.type_condition {
-            Some(type_condition) => match value.get_type_name() {
+            Some(type_condition) => match field
+                .parent_object
+                .as_deref()
+                .or_else(|| value.get_type_name())
+            {
                 Some(value_type) => field
                     .outer_type_conditions
                     .iter()
diff --git a/src/core/jit/synth/synth.rs b/src/core/jit/synth/synth.rs
index ddf9169..a5a6b55 100644
--- a/src/core/jit/synth/synth.rs
+++ b/src/core/jit/synth/synth.rs
@@ -272,7 +272,7 @@ where
 
                     for (child, same) in children {
                         let value = if child.name == "__typename" {
-                            Output::string(node.value_type(value).into())
+                            Output::string(self.plan.value_type(node, value).into())
                         } else {
                             let val = obj.get_key(child.name.as_str());
                             self.iter(child, &same, val, data_path, path, None)?
-- 
2.43.0


From ec48d968ac49e6e509b164cd9523b2394f8b1f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 077/122] fix: a field selected on an interface is resolved the
 way the object resolves it

---
 src/core/blueprint/index.rs | 21 ++++++++++++++++
 src/core/jit/builder.rs     | 49 +++++++++++++++++++++++++++++++++++--
 2 files changed, 68 insertions(+), 2 deletions(-)

diff --git a/src/core/blueprint/index.rs b/src/core/blueprint/index.rs
index f4a7801..a183f25 100644
--- a/src/core/blueprint/index.rs
+++ b/src/core/blueprint/index.rs
@@ -106,6 +106,27 @@ impl Index {
         }
     }
 
+    /// Returns the object types that implement the interface
+    pub fn get_implementors(&self, interface: &str) -> Vec<&str> {
+        self.map
+            .iter()
+            .filter_map(|(name, (def, _))| match def {
+                Definition::Object(object) if object.implements.contains(interface) => {
+                    Some(name.as_str())
+                }
+                _ => None,
+            })
+            .collect()
+    }
+
+    /// Checks if the type says by itself how to resolve the field
+    pub fn has_resolver(&self, type_name: &str, field_name: &str) -> bool {
+        match self.get_field(type_name, field_name) {
+            Some(QueryField::Field((field, _))) => field.resolver.is_some(),
+            _ => false,
+        }
+    }
+
     pub fn get_input_type_definition(&self, type_name: &str) -> Option<&InputObjectTypeDefinition> {
         match self.map.get(type_name) {
             Some((Definition::InputObject(input), _)) => Some(input),
diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index 7165a28..fec7020 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -129,12 +129,15 @@ impl<'b> Scope<'b> {
 }
 
 /// Selections of the same field
+#[derive(Clone)]
 struct Selected<'b> {
     output_name: &'b str,
     field: &'b async_graphql::parser::types::Field,
     pos: async_graphql::Pos,
     selection: Vec<&'b SelectionSet>,
     scope: Scope<'b>,
+    /// The type that defines the field, if it's not the one of the scope
+    defined_by: Option<&'b str>,
 }
 
 pub struct Builder<'a> {
@@ -235,6 +238,7 @@ impl<'a> Builder<'a> {
                             pos: selection.pos,
                             selection: vec![&field.selection_set.node],
                             scope,
+                            defined_by: None,
                         }),
                     }
                 }
@@ -294,16 +298,54 @@ impl<'a> Builder<'a> {
 
         selected
             .into_iter()
+            .flat_map(|selected| self.per_object(selected))
             .filter_map(|selected| self.to_field(selected, fragments))
             .collect()
     }
 
+    /// Objects may resolve a field of the interface they implement on their own.
+    /// In that case the field is selected separately for every one of them.
+    fn per_object<'b>(&'b self, selected: Selected<'b>) -> Vec<Selected<'b>> {
+        let interface = selected.scope.type_condition;
+        let field_name = selected.field.name.node.as_str();
+        let mut objects = self.index.get_implementors(interface);
+        if self.index.type_is_object(selected.scope.parent_type) {
+            objects.retain(|object| *object == selected.scope.parent_type);
+        }
+        if !objects
+            .iter()
+            .any(|object| self.index.has_resolver(object, field_name))
+        {
+            return vec![selected];
+        }
+
+        objects
+            .into_iter()
+            .map(|object| {
+                let mut selected = selected.clone();
+                selected.scope.outer_type_conditions.push(interface);
+                selected.scope.type_condition = object;
+                if !self.index.has_resolver(object, field_name) {
+                    selected.defined_by = Some(interface);
+                }
+                selected
+            })
+            .collect()
+    }
+
     fn to_field(
         &self,
         selected: Selected,
         fragments: &HashMap<&str, &FragmentDefinition>,
     ) -> Option<Field<Value>> {
-        let Selected { output_name, field: gql_field, pos, selection, scope } = selected;
+        let Selected {
+            output_name,
+            field: gql_field,
+            pos,
+            selection,
+            scope,
+            defined_by,
+        } = selected;
         let type_condition = scope.type_condition;
         let field_name = gql_field.name.node.as_str();
 
@@ -334,7 +376,10 @@ impl<'a> Builder<'a> {
             .collect();
 
         // Check if the field is present in the schema index
-        if let Some(field_def) = self.index.get_field(type_condition, field_name) {
+        if let Some(field_def) = self
+            .index
+            .get_field(defined_by.unwrap_or(type_condition), field_name)
+        {
             let request_args = gql_field
                 .arguments
                 .iter()
-- 
2.43.0


From 27585d3a4c8e725b9824f21ce8b38523dffcd86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:18 +0000
Subject: [PATCH 078/122] fix: plans and constant responses are reused for the
 same operation only

A document with several operations was planned once, for whichever operation was
asked for first, and a constant response was reused whatever the variables.
---
 src/core/jit/graphql_executor.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/core/jit/graphql_executor.rs b/src/core/jit/graphql_executor.rs
index e1c131c..59da1d9 100644
--- a/src/core/jit/graphql_executor.rs
+++ b/src/core/jit/graphql_executor.rs
@@ -65,6 +65,7 @@ impl JITExecutor {
     fn req_hash(request: &async_graphql::Request) -> OPHash {
         let mut hasher = TailcallHasher::default();
         request.query.hash(&mut hasher);
+        request.operation_name.hash(&mut hasher);
 
         OPHash::new(hasher.finish())
     }
@@ -75,13 +76,18 @@ impl JITExecutor {
         &self,
         request: async_graphql::Request,
     ) -> impl Future<Output = AnyResponse<Vec<u8>>> + Send + '_ {
-        // TODO: hash considering only the query itself ignoring specified operation and
-        // variables that could differ for the same query
+        // identifies the plan, which depends on the query and the specified operation but
+        // not on the variables
         let hash = Self::req_hash(&request);
+        // while the response may depend on the variables even if all of the resolvers
+        // are constant
+        let has_variables = !request.variables.is_empty();
 
         async move {
-            if let Some(response) = self.app_ctx.const_execution_cache.get(&hash) {
-                return response.clone();
+            if !has_variables {
+                if let Some(response) = self.app_ctx.const_execution_cache.get(&hash) {
+                    return response.clone();
+                }
             }
 
             let jit_request = jit::Request::from(request);
@@ -112,7 +118,7 @@ impl JITExecutor {
             };
 
             // Cache the response if it's constant and not wrapped with protected.
-            if is_const && !is_protected {
+            if is_const && !is_protected && !has_variables {
                 self.app_ctx
                     .const_execution_cache
                     .insert(hash, response.clone());
-- 
2.43.0


From dd42db5c6082cf64c76578aa9af2ea595698fb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:18 +0000
Subject: [PATCH 079/122] fix: operations of a batch are deduplicated
 separately

All of the operations of a batch shared the id of the whole batch, so that operations
that could be deduplicated got the response of the first of them.
---
 src/core/async_graphql_hyper.rs  | 34 +++++++++++++++++++++-----------
 src/core/jit/graphql_executor.rs |  6 ++++--
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/core/async_graphql_hyper.rs b/src/core/async_graphql_hyper.rs
index 5518ea5..626889d 100644
--- a/src/core/async_graphql_hyper.rs
+++ b/src/core/async_graphql_hyper.rs
@@ -16,6 +16,26 @@ use super::jit::{BatchResponse as JITBatchResponse, JITExecutor};
 #[derive(PartialEq, Eq, Clone, Hash, Debug)]
 pub struct OperationId(u64);
 
+impl OperationId {
+    /// Identifies the specific request among the ones executed together as a
+    /// batch
+    pub fn for_request(&self, request: &async_graphql::Request) -> OperationId {
+        let mut hasher = TailcallHasher::default();
+        self.0.hash(&mut hasher);
+        hash_request(request, &mut hasher);
+        OperationId(hasher.finish())
+    }
+}
+
+fn hash_request<H: Hasher>(request: &async_graphql::Request, state: &mut H) {
+    request.query.hash(state);
+    request.operation_name.hash(state);
+    for (name, value) in request.variables.iter() {
+        name.hash(state);
+        value.to_string().hash(state);
+    }
+}
+
 #[async_trait::async_trait]
 pub trait GraphQLRequestLike: Hash + Send {
     fn data<D: Any + Clone + Send + Sync>(self, data: D) -> Self;
@@ -60,12 +80,7 @@ impl Hash for GraphQLBatchRequest {
     // one.
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         for request in self.0.iter() {
-            request.query.hash(state);
-            request.operation_name.hash(state);
-            for (name, value) in request.variables.iter() {
-                name.hash(state);
-                value.to_string().hash(state);
-            }
+            hash_request(request, state);
         }
     }
 }
@@ -101,12 +116,7 @@ pub struct GraphQLRequest(pub async_graphql::Request);
 impl GraphQLRequest {}
 impl Hash for GraphQLRequest {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        self.0.query.hash(state);
-        self.0.operation_name.hash(state);
-        for (name, value) in self.0.variables.iter() {
-            name.hash(state);
-            value.to_string().hash(state);
-        }
+        hash_request(&self.0, state);
     }
 }
 #[async_trait::async_trait]
diff --git a/src/core/jit/graphql_executor.rs b/src/core/jit/graphql_executor.rs
index 59da1d9..9c0e004 100644
--- a/src/core/jit/graphql_executor.rs
+++ b/src/core/jit/graphql_executor.rs
@@ -44,13 +44,14 @@ impl JITExecutor {
     #[inline(always)]
     async fn dedupe_and_exec(
         &self,
+        operation_id: OperationId,
         exec: ConstValueExecutor,
         jit_request: jit::Request<ConstValue>,
     ) -> AnyResponse<Vec<u8>> {
         let out = self
             .app_ctx
             .dedupe_operation_handler
-            .dedupe(&self.operation_id, || {
+            .dedupe(&operation_id, || {
                 Box::pin(async move {
                     let resp = self.exec(exec, jit_request).await;
                     Ok(resp)
@@ -82,6 +83,7 @@ impl JITExecutor {
         // while the response may depend on the variables even if all of the resolvers
         // are constant
         let has_variables = !request.variables.is_empty();
+        let operation_id = self.operation_id.for_request(&request);
 
         async move {
             if !has_variables {
@@ -112,7 +114,7 @@ impl JITExecutor {
             let is_protected = exec.plan.is_protected;
 
             let response = if exec.plan.can_dedupe() {
-                self.dedupe_and_exec(exec, jit_request).await
+                self.dedupe_and_exec(operation_id, exec, jit_request).await
             } else {
                 self.exec(exec, jit_request).await
             };
-- 
2.43.0


From c24b1d674c996a75d618e51a5cb53bc26174a3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:19 +0000
Subject: [PATCH 080/122] fix: an operation is deduplicated only if all of its
 fields allow that

Only the root fields were considered, so that nested fields without deduplication were
resolved once for several requests.
---
 src/core/jit/transform/check_cache.rs  | 2 +-
 src/core/jit/transform/check_dedupe.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/jit/transform/check_cache.rs b/src/core/jit/transform/check_cache.rs
index 5839261..4424235 100644
--- a/src/core/jit/transform/check_cache.rs
+++ b/src/core/jit/transform/check_cache.rs
@@ -41,7 +41,7 @@ impl<A> Transform for CheckCache<A> {
     fn transform(&self, mut plan: Self::Value) -> Valid<Self::Value, Self::Error> {
         let mut ttl = Some(NonZeroU64::MAX);
 
-        for field in plan.selection.iter() {
+        for field in plan.iter_dfs() {
             if let Some(ir) = field.ir.as_ref() {
                 ttl = std::cmp::min(ttl, check_cache(ir));
             }
diff --git a/src/core/jit/transform/check_dedupe.rs b/src/core/jit/transform/check_dedupe.rs
index 8287033..122d8c6 100644
--- a/src/core/jit/transform/check_dedupe.rs
+++ b/src/core/jit/transform/check_dedupe.rs
@@ -36,7 +36,7 @@ impl<A> Transform for CheckDedupe<A> {
     type Error = Infallible;
 
     fn transform(&self, mut plan: Self::Value) -> Valid<Self::Value, Self::Error> {
-        let dedupe = plan.selection.iter().all(|field| {
+        let dedupe = plan.iter_dfs().all(|field| {
             if let Some(ir) = field.ir.as_ref() {
                 check_dedupe(ir)
             } else {
-- 
2.43.0


From 04cbd253a8af4e19fa348857a7eb85f86f57e9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 081/122] fix: generated types admit all of the samples they
 are inferred from

Only the first of several samples was considered for the items of a list and for the
fields of merged objects, so that fields of the others, lists inside of lists and values
of other kinds were lost.
---
 .../generator/json/operation_generator.rs     |  19 +-
 src/core/generator/json/types_generator.rs    | 180 ++++++++++--------
 src/core/wrapping_type.rs                     |   6 +
 3 files changed, 115 insertions(+), 90 deletions(-)

diff --git a/src/core/generator/json/operation_generator.rs b/src/core/generator/json/operation_generator.rs
index 79bde56..2d0f15e 100644
--- a/src/core/generator/json/operation_generator.rs
+++ b/src/core/generator/json/operation_generator.rs
@@ -14,19 +14,11 @@ impl OperationTypeGenerator {
     pub fn generate(
         &self,
         request_sample: &RequestSample,
-        root_type: &str,
+        root_type: impl Into<Type>,
         name_generator: &NameGenerator,
         mut config: Config,
     ) -> Valid<Config, String> {
-        let type_of = Type::from(root_type.to_owned());
-        let mut field = Field {
-            type_of: if request_sample.res_body.is_array() {
-                type_of.into_list()
-            } else {
-                type_of
-            },
-            ..Default::default()
-        };
+        let mut field = Field { type_of: root_type.into(), ..Default::default() };
 
         // generate required http directive.
         let http_directive_gen = HttpDirectiveGenerator::new(&request_sample.url);
@@ -47,10 +39,9 @@ impl OperationTypeGenerator {
             )));
             http_resolver.method = request_sample.method.to_owned();
 
-            field.args.insert(
-                arg_name,
-                Arg { type_of: root_ty.into(), ..Default::default() },
-            );
+            field
+                .args
+                .insert(arg_name, Arg { type_of: root_ty, ..Default::default() });
         }
 
         field.resolvers = Resolver::Http(http_resolver).into();
diff --git a/src/core/generator/json/types_generator.rs b/src/core/generator/json/types_generator.rs
index 923afb1..a4600e8 100644
--- a/src/core/generator/json/types_generator.rs
+++ b/src/core/generator/json/types_generator.rs
@@ -2,11 +2,12 @@ use serde_json::{Map, Value};
 use tailcall_valid::Valid;
 
 use super::OperationTypeGenerator;
-use crate::core::config::{Config, Field, Type};
+use crate::core::config::{self, Config, Field};
 use crate::core::generator::{NameGenerator, RequestSample};
-use crate::core::helpers::gql_type::{is_primitive, is_valid_field_name, to_gql_type};
+use crate::core::helpers::gql_type::{is_valid_field_name, to_gql_type};
 use crate::core::scalar::Scalar;
 use crate::core::transform::Transform;
+use crate::core::Type;
 
 struct JSONValidator;
 
@@ -14,7 +15,6 @@ impl JSONValidator {
     /// checks if given json value is graphql compatible or not.
     fn is_graphql_compatible(value: &Value) -> bool {
         match value {
-            Value::Array(json_array) => !json_array.is_empty(),
             Value::Object(json_object) => {
                 !json_object.is_empty()
                     && !json_object
@@ -30,19 +30,14 @@ struct TypeMerger;
 
 impl TypeMerger {
     /// given a list of types, merges all fields into single type.
-    fn merge_fields(type_list: Vec<Type>) -> Type {
-        let mut ty = Type::default();
+    fn merge_fields(type_list: Vec<config::Type>, config: &mut Config) -> config::Type {
+        let mut ty = config::Type::default();
 
         for current_type in type_list {
             for (key, new_field) in current_type.fields {
-                if let Some(existing_field) = ty.fields.get(&key) {
-                    if existing_field.type_of.name().is_empty()
-                        || existing_field.type_of.name() == &Scalar::Empty.to_string()
-                        || (existing_field.type_of.name() == &Scalar::JSON.to_string()
-                            && new_field.type_of.name() != &Scalar::Empty.to_string())
-                    {
-                        ty.fields.insert(key, new_field);
-                    }
+                if let Some(existing_field) = ty.fields.get_mut(&key) {
+                    existing_field.type_of =
+                        Self::merge_types(&existing_field.type_of, &new_field.type_of, config);
                 } else {
                     ty.fields.insert(key, new_field);
                 }
@@ -50,6 +45,43 @@ impl TypeMerger {
         }
         ty
     }
+
+    /// creates the type that admits the values of both of the types.
+    fn merge_types(existing: &Type, new: &Type, config: &mut Config) -> Type {
+        match (existing, new) {
+            (existing, new) if existing == new || is_unknown(new) => existing.to_owned(),
+            (existing, new) if is_unknown(existing) => new.to_owned(),
+            (Type::List { of_type: existing, .. }, Type::List { of_type: new, .. }) => {
+                Self::merge_types(existing, new, config).into_list()
+            }
+            (Type::Named { name: existing, .. }, Type::Named { name: new, .. }) => {
+                match (config.types.get(existing), config.types.get(new)) {
+                    (Some(existing_type), Some(new_type)) => {
+                        let type_list = vec![existing_type.to_owned(), new_type.to_owned()];
+                        let merged_type = Self::merge_fields(type_list, config);
+                        config.types.insert(existing.to_owned(), merged_type);
+                        Type::from(existing.to_owned())
+                    }
+                    _ => any_scalar(),
+                }
+            }
+            _ => any_scalar(),
+        }
+    }
+}
+
+fn any_scalar() -> Type {
+    Type::from(Scalar::JSON.to_string())
+}
+
+/// type of the values, that don't tell anything about the type, like null or
+/// the items of an empty list. It's never part of the generated config.
+fn unknown() -> Type {
+    Type::from("")
+}
+
+fn is_unknown(type_of: &Type) -> bool {
+    type_of == &unknown()
 }
 
 pub struct TypeGenerator<'a> {
@@ -61,94 +93,90 @@ impl<'a> TypeGenerator<'a> {
         Self { type_name_generator }
     }
 
-    fn generate_scalar(&self, config: &mut Config) -> Scalar {
-        let any_scalar = Scalar::JSON;
-        if config.types.contains_key(&any_scalar.name()) {
-            return any_scalar;
-        }
-        any_scalar
-    }
-
     fn create_type_from_object(
         &self,
         json_object: &'a Map<String, Value>,
         config: &mut Config,
-    ) -> Type {
-        let mut ty = Type::default();
+    ) -> config::Type {
+        let mut ty = config::Type::default();
         for (json_property, json_val) in json_object {
-            let mut field = if !JSONValidator::is_graphql_compatible(json_val) {
-                // if object, array is empty or object has in-compatible fields then
-                // generate scalar for it.
-                Field {
-                    type_of: self.generate_scalar(config).to_string().into(),
-                    ..Default::default()
-                }
-            } else {
-                let mut field = Field::default();
-                if is_primitive(json_val) {
-                    field.type_of = to_gql_type(json_val).into();
-                } else {
-                    let type_name = self.generate_types(json_val, config);
-                    field.type_of = type_name.into();
-                }
-                field
-            };
-            field.type_of = if json_val.is_array() {
-                field.type_of.into_list()
-            } else {
-                field.type_of
-            };
-
-            ty.fields.insert(json_property.to_string(), field);
+            let type_of = self.infer_type(json_val, config);
+            ty.fields.insert(
+                json_property.to_string(),
+                Field { type_of, ..Default::default() },
+            );
         }
         ty
     }
 
-    pub fn generate_types(&self, json_value: &'a Value, config: &mut Config) -> String {
+    fn infer_type(&self, json_value: &'a Value, config: &mut Config) -> Type {
         match json_value {
+            Value::Null => unknown(),
             Value::Array(json_arr) => {
-                let vec_capacity = json_arr.first().map_or(0, |json_item| {
-                    if json_item.is_object() {
-                        json_arr.len()
-                    } else {
-                        0
-                    }
-                });
-                let mut object_types = Vec::<_>::with_capacity(vec_capacity);
+                let mut object_types = Vec::<_>::new();
+                let mut item_type = unknown();
                 for json_item in json_arr {
-                    if let Value::Object(json_obj) = json_item {
-                        if !JSONValidator::is_graphql_compatible(json_item) {
-                            return self.generate_scalar(config).to_string();
+                    match json_item {
+                        Value::Object(json_obj) => {
+                            if !JSONValidator::is_graphql_compatible(json_item) {
+                                return any_scalar().into_list();
+                            }
+                            object_types.push(self.create_type_from_object(json_obj, config));
+                        }
+                        _ => {
+                            let new_type = self.infer_type(json_item, config);
+                            item_type = TypeMerger::merge_types(&item_type, &new_type, config);
                         }
-                        object_types.push(self.create_type_from_object(json_obj, config));
-                    } else {
-                        return self.generate_types(json_item, config);
                     }
                 }
 
-                if !object_types.is_empty() {
-                    // merge the generated types of list into single concrete type.
-                    let merged_type = TypeMerger::merge_fields(object_types);
-                    let generate_type_name = self.type_name_generator.next();
-                    config
-                        .types
-                        .insert(generate_type_name.to_owned(), merged_type);
-                    return generate_type_name;
+                if object_types.is_empty() {
+                    return item_type.into_list();
+                }
+
+                if !is_unknown(&item_type) {
+                    // objects along with the values of other kinds
+                    return any_scalar().into_list();
                 }
 
-                // generate a scalar if array is empty.
-                self.generate_scalar(config).to_string()
+                // merge the generated types of list into single concrete type.
+                let merged_type = TypeMerger::merge_fields(object_types, config);
+                let generate_type_name = self.type_name_generator.next();
+                config
+                    .types
+                    .insert(generate_type_name.to_owned(), merged_type);
+                Type::from(generate_type_name).into_list()
             }
             Value::Object(json_obj) => {
                 if !JSONValidator::is_graphql_compatible(json_value) {
-                    return self.generate_scalar(config).to_string();
+                    return any_scalar();
                 }
                 let ty = self.create_type_from_object(json_obj, config);
                 let generate_type_name = self.type_name_generator.next();
                 config.types.insert(generate_type_name.to_owned(), ty);
-                generate_type_name
+                Type::from(generate_type_name)
             }
-            other => to_gql_type(other),
+            other => Type::from(to_gql_type(other)),
+        }
+    }
+
+    pub fn generate_types(&self, json_value: &'a Value, config: &mut Config) -> Type {
+        let type_of = self.infer_type(json_value, config);
+
+        // generate a scalar for the types we know nothing about.
+        for ty in config.types.values_mut() {
+            for field in ty.fields.values_mut() {
+                field.type_of = Self::replace_unknown(&field.type_of);
+            }
+        }
+        Self::replace_unknown(&type_of)
+    }
+
+    fn replace_unknown(type_of: &Type) -> Type {
+        if type_of.name().is_empty() {
+            type_of.to_owned().with_name(Scalar::JSON.to_string())
+        } else {
+            type_of.to_owned()
         }
     }
 }
@@ -176,7 +204,7 @@ impl Transform for GraphQLTypesGenerator<'_> {
         // generate the required field in operation type.
         OperationTypeGenerator.generate(
             self.request_sample,
-            &root_type,
+            root_type,
             self.type_name_generator,
             config,
         )
diff --git a/src/core/wrapping_type.rs b/src/core/wrapping_type.rs
index 39cbe49..daed3d5 100644
--- a/src/core/wrapping_type.rs
+++ b/src/core/wrapping_type.rs
@@ -173,3 +173,9 @@ impl From<String> for Type {
         Self::Named { name: value, non_null: false }
     }
 }
+
+impl From<&str> for Type {
+    fn from(value: &str) -> Self {
+        Self::from(value.to_owned())
+    }
+}
-- 
2.43.0


From 975da7bd9eeb075b28de1909e5e42453157f3bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 082/122] fix: the path of a sampled url is kept in the
 generated template

The path was percent-decoded, which panics where that isn't UTF-8 and asks for another
resource where it contains escaped delimiters.
---
 src/core/generator/json/http_directive_generator.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/core/generator/json/http_directive_generator.rs b/src/core/generator/json/http_directive_generator.rs
index 3ab63cd..3b28b11 100644
--- a/src/core/generator/json/http_directive_generator.rs
+++ b/src/core/generator/json/http_directive_generator.rs
@@ -2,7 +2,7 @@ use std::collections::HashSet;
 
 use convert_case::{Case, Casing};
 use regex::Regex;
-use url::Url;
+use url::{Position, Url};
 
 use crate::core::config::{Arg, Field, Http, URLQuery};
 use crate::core::generator::PREFIX;
@@ -94,14 +94,9 @@ impl<'a> HttpDirectiveGenerator<'a> {
                 });
 
         // add path in http directive.
-        let mut url = self.url.clone();
-        url.set_path(&mustache_compatible_url);
-        url.set_query(None);
+        let origin = &self.url[..Position::BeforePath];
 
-        let url = url.to_string();
-        let decoded = urlencoding::decode(&url).unwrap();
-
-        self.http.url = decoded.to_string();
+        self.http.url = format!("{}{}", origin, mustache_compatible_url);
     }
 
     fn add_query_variables(&mut self, field: &mut Field) {
-- 
2.43.0


From 85631199f51dbc39099b065ece8c94f631309943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 083/122] fix: query parameters of a sampled url get arguments
 of their own

Names which aren't valid in GraphQL made the generated config invalid and names which
differ only in their case ended up in one argument.
---
 .../json/http_directive_generator.rs          | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/core/generator/json/http_directive_generator.rs b/src/core/generator/json/http_directive_generator.rs
index 3b28b11..a191a22 100644
--- a/src/core/generator/json/http_directive_generator.rs
+++ b/src/core/generator/json/http_directive_generator.rs
@@ -6,7 +6,7 @@ use url::{Position, Url};
 
 use crate::core::config::{Arg, Field, Http, URLQuery};
 use crate::core::generator::PREFIX;
-use crate::core::helpers::gql_type::detect_gql_data_type;
+use crate::core::helpers::gql_type::{detect_gql_data_type, is_valid_field_name};
 use crate::core::Type;
 
 #[derive(Debug)]
@@ -112,8 +112,7 @@ impl<'a> HttpDirectiveGenerator<'a> {
 
             let arg = Arg { type_of, ..Default::default() };
 
-            // Convert query key to camel case for better readability.
-            let query_key = query.key.to_case(Case::Camel);
+            let query_key = Self::arg_name(&query.key, field);
             let value: String = format!("{{{{.args.{}}}}}", query_key);
 
             self.http
@@ -123,6 +122,29 @@ impl<'a> HttpDirectiveGenerator<'a> {
         }
     }
 
+    /// name for the argument of the query parameter, that is not used by other
+    /// arguments of the field yet.
+    fn arg_name(query_key: &str, field: &Field) -> String {
+        // Convert query key to camel case for better readability.
+        let name = query_key
+            .replace(|c: char| !c.is_ascii_alphanumeric(), "_")
+            .to_case(Case::Camel);
+        let name = if is_valid_field_name(&name) {
+            name
+        } else {
+            format!("{}{}", PREFIX, name)
+        };
+
+        if !field.args.contains_key(&name) {
+            return name;
+        }
+
+        (2..)
+            .map(|index| format!("{}_{}", name, index))
+            .find(|name| !field.args.contains_key(name))
+            .unwrap_or(name)
+    }
+
     pub fn generate_http_directive(mut self, field: &mut Field) -> Http {
         self.add_path_variables(field);
         self.add_query_variables(field);
-- 
2.43.0


From e18cd81240153daf8a56ab77458b1e37d6fe2840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 084/122] fix: the type of a query parameter admits all of its
 sampled values

Only the first of the repeated or comma separated values was considered, and texts like
"nan" were taken for numbers.
---
 .../generator/json/http_directive_generator.rs |  6 +++++-
 src/core/helpers/gql_type.rs                   | 18 +++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/core/generator/json/http_directive_generator.rs b/src/core/generator/json/http_directive_generator.rs
index a191a22..3b5ea8b 100644
--- a/src/core/generator/json/http_directive_generator.rs
+++ b/src/core/generator/json/http_directive_generator.rs
@@ -6,7 +6,9 @@ use url::{Position, Url};
 
 use crate::core::config::{Arg, Field, Http, URLQuery};
 use crate::core::generator::PREFIX;
-use crate::core::helpers::gql_type::{detect_gql_data_type, is_valid_field_name};
+use crate::core::helpers::gql_type::{
+    detect_gql_data_type, is_valid_field_name, merge_gql_data_types,
+};
 use crate::core::Type;
 
 #[derive(Debug)]
@@ -36,6 +38,8 @@ impl<'a> UrlUtility<'a> {
                 // Find the existing query and mark it as a list
                 if let Some(existing_query) = queries.iter_mut().find(|q| q.key == key) {
                     existing_query.is_list = true;
+                    existing_query.data_type =
+                        merge_gql_data_types(&existing_query.data_type, &value_str);
                 }
             } else {
                 queries.push(QueryParamInfo {
diff --git a/src/core/helpers/gql_type.rs b/src/core/helpers/gql_type.rs
index 8d4da11..9fc16f5 100644
--- a/src/core/helpers/gql_type.rs
+++ b/src/core/helpers/gql_type.rs
@@ -6,18 +6,30 @@ pub fn detect_gql_data_type(value: &str) -> String {
 
     if trimmed_value.parse::<i32>().is_ok() {
         "Int".to_string()
-    } else if trimmed_value.parse::<f64>().is_ok() {
+    } else if trimmed_value.parse::<f64>().is_ok_and(f64::is_finite) {
         "Float".to_string()
     } else if trimmed_value.parse::<bool>().is_ok() {
         "Boolean".to_string()
     } else if trimmed_value.contains(',') {
-        let first_value = trimmed_value.split(',').next().unwrap_or("");
-        detect_gql_data_type(first_value)
+        let mut values = trimmed_value.split(',');
+        let first_value = values.next().unwrap_or("");
+        values.fold(detect_gql_data_type(first_value), |data_type, value| {
+            merge_gql_data_types(&data_type, value)
+        })
     } else {
         "String".to_string()
     }
 }
 
+/// data type that admits the value along with the values of the given type
+pub fn merge_gql_data_types(data_type: &str, value: &str) -> String {
+    match (data_type, detect_gql_data_type(value).as_str()) {
+        (data_type, other) if data_type == other => data_type.to_string(),
+        ("Int", "Float") | ("Float", "Int") => "Float".to_string(),
+        _ => "String".to_string(),
+    }
+}
+
 pub fn is_valid_field_name(property_name: &str) -> bool {
     let gql_field_name_validator: Regex = Regex::new(r"^[a-zA-Z][a-zA-Z0-9_]*$").unwrap();
     gql_field_name_validator.is_match(property_name)
-- 
2.43.0


From 49bc2087dedf49e28a700169b3a392dbf87bbe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:55 +0000
Subject: [PATCH 085/122] fix: types are not renamed to names which are in use

An inferred name could be the one of a predefined scalar, an enum or a union, and types
overwrote the ones that had the name before, also when names were swapped.
---
 .../config/transformer/improve_type_names.rs  |  4 +-
 src/core/config/transformer/rename_types.rs   | 93 ++++++++-----------
 2 files changed, 44 insertions(+), 53 deletions(-)

diff --git a/src/core/config/transformer/improve_type_names.rs b/src/core/config/transformer/improve_type_names.rs
index a2cdfaa..a6cd125 100644
--- a/src/core/config/transformer/improve_type_names.rs
+++ b/src/core/config/transformer/improve_type_names.rs
@@ -6,6 +6,7 @@ use tailcall_valid::Valid;
 use super::RenameTypes;
 use crate::core::config::Config;
 use crate::core::generator::PREFIX;
+use crate::core::scalar::Scalar;
 use crate::core::transform::Transform;
 
 #[derive(Debug, Default)]
@@ -42,7 +43,8 @@ impl<'a> CandidateConvergence<'a> {
             let candidates_to_consider = candidate_list.iter().filter(|(candidate_name, _)| {
                 let candidate_type_name = candidate_name.to_case(Case::Pascal);
                 !converged_candidate_set.contains(&candidate_type_name)
-                    && !self.config.types.contains_key(&candidate_type_name)
+                    && !self.config.contains(&candidate_type_name)
+                    && !Scalar::is_predefined(&candidate_type_name)
             });
 
             // Find the candidate with the highest frequency and priority
diff --git a/src/core/config/transformer/rename_types.rs b/src/core/config/transformer/rename_types.rs
index 26d9b59..f9deb36 100644
--- a/src/core/config/transformer/rename_types.rs
+++ b/src/core/config/transformer/rename_types.rs
@@ -1,4 +1,4 @@
-use std::collections::HashSet;
+use std::collections::{BTreeMap, HashSet};
 
 use indexmap::IndexMap;
 use tailcall_valid::{Valid, Validator};
@@ -20,6 +20,13 @@ impl RenameTypes {
     }
 }
 
+fn rename_keys<T>(types: &mut BTreeMap<String, T>, lookup: &IndexMap<String, String>) {
+    *types = std::mem::take(types)
+        .into_iter()
+        .map(|(name, type_)| (lookup.get(&name).cloned().unwrap_or(name), type_))
+        .collect();
+}
+
 impl Transform for RenameTypes {
     type Value = Config;
     type Error = String;
@@ -30,35 +37,8 @@ impl Transform for RenameTypes {
 
         // Ensure all types exist in the configuration
         Valid::from_iter(self.0.iter(), |(existing_name, suggested_name)| {
-            if config.types.contains_key(existing_name)
-                || config.enums.contains_key(existing_name)
-                || config.unions.contains_key(existing_name)
-            {
-                // handle for the types.
-                if let Some(type_info) = config.types.remove(existing_name) {
-                    config.types.insert(suggested_name.to_string(), type_info);
-                    lookup.insert(existing_name.clone(), suggested_name.clone());
-
-                    // edge case where type is of operation type.
-                    if config.schema.query == Some(existing_name.clone()) {
-                        config.schema.query = Some(suggested_name.clone());
-                    } else if config.schema.mutation == Some(existing_name.clone()) {
-                        config.schema.mutation = Some(suggested_name.clone());
-                    }
-                }
-
-                // handle for the enums.
-                if let Some(type_info) = config.enums.remove(existing_name) {
-                    config.enums.insert(suggested_name.to_string(), type_info);
-                    lookup.insert(existing_name.clone(), suggested_name.clone());
-                }
-
-                // handle for the union.
-                if let Some(type_info) = config.unions.remove(existing_name) {
-                    config.unions.insert(suggested_name.to_string(), type_info);
-                    lookup.insert(existing_name.clone(), suggested_name.clone());
-                }
-
+            if config.contains(existing_name) {
+                lookup.insert(existing_name.clone(), suggested_name.clone());
                 Valid::succeed(())
             } else {
                 Valid::fail(format!(
@@ -67,7 +47,38 @@ impl Transform for RenameTypes {
                 ))
             }
         })
+        .and_then(|_| {
+            // Ensure every type has a name of its own afterwards
+            let mut used_names = HashSet::new();
+            Valid::from_iter(lookup.iter(), |(existing_name, suggested_name)| {
+                let is_used =
+                    config.contains(suggested_name) && !lookup.contains_key(suggested_name);
+                if used_names.insert(suggested_name.clone()) && !is_used {
+                    Valid::succeed(())
+                } else {
+                    Valid::fail(format!(
+                        "Type '{}' cannot be renamed to '{}', the name is already in use.",
+                        existing_name, suggested_name
+                    ))
+                }
+            })
+        })
         .map(|_| {
+            rename_keys(&mut config.types, &lookup);
+            rename_keys(&mut config.enums, &lookup);
+            rename_keys(&mut config.unions, &lookup);
+
+            // edge case where type is of operation type.
+            for operation_type in [
+                &mut config.schema.query,
+                &mut config.schema.mutation,
+                &mut config.schema.subscription,
+            ] {
+                if let Some(suggested_name) = operation_type.as_ref().and_then(|n| lookup.get(n)) {
+                    *operation_type = Some(suggested_name.clone());
+                }
+            }
+
             for type_ in config.types.values_mut() {
                 for field_ in type_.fields.values_mut() {
                     // replace type of field.
@@ -97,28 +108,6 @@ impl Transform for RenameTypes {
                     .collect();
             }
 
-            // replace in the union as well.
-            for union_type_ in config.unions.values_mut() {
-                // Collect changes to be made
-                let mut types_to_remove = HashSet::new();
-                let mut types_to_add = HashSet::new();
-
-                for type_name in union_type_.types.iter() {
-                    if let Some(new_type_name) = lookup.get(type_name) {
-                        types_to_remove.insert(type_name.clone());
-                        types_to_add.insert(new_type_name.clone());
-                    }
-                }
-                // Apply changes
-                for type_name in types_to_remove {
-                    union_type_.types.remove(&type_name);
-                }
-
-                for type_name in types_to_add {
-                    union_type_.types.insert(type_name);
-                }
-            }
-
             // replace in union as well.
             for union_type_ in config.unions.values_mut() {
                 union_type_.types = union_type_
-- 
2.43.0


From 2554cdac551433d7e98adf942d4cc16afdf66604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 086/122] fix: the method and the body of sampled queries are
 kept

Samples of queries that are sent as POST requests were turned into GET requests without
body.
---
 src/core/generator/json/operation_generator.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/generator/json/operation_generator.rs b/src/core/generator/json/operation_generator.rs
index 2d0f15e..a4a5bbb 100644
--- a/src/core/generator/json/operation_generator.rs
+++ b/src/core/generator/json/operation_generator.rs
@@ -24,7 +24,11 @@ impl OperationTypeGenerator {
         let http_directive_gen = HttpDirectiveGenerator::new(&request_sample.url);
         let mut http_resolver = http_directive_gen.generate_http_directive(&mut field);
 
-        if let GraphQLOperationType::Mutation = request_sample.operation_type {
+        http_resolver.method = request_sample.method.to_owned();
+
+        if request_sample.operation_type == GraphQLOperationType::Mutation
+            || !request_sample.req_body.is_null()
+        {
             // generate the input type.
             let root_ty = TypeGenerator::new(name_generator)
                 .generate_types(&request_sample.req_body, &mut config);
@@ -37,7 +41,6 @@ impl OperationTypeGenerator {
                 "{{{{.args.{}}}}}",
                 arg_name
             )));
-            http_resolver.method = request_sample.method.to_owned();
 
             field
                 .args
-- 
2.43.0


From 31357d6ff4b055cf93d20744f2f0d7d7228651f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 087/122] fix: generated types never get the names of
 hand-written ones

Otherwise a hand-written type was extended with the fields of the generated type, or
replaced by it.
---
 .../transformer/merge_types/type_merger.rs    |  6 ++++-
 src/core/generator/generator.rs               | 14 +++++++++--
 src/core/generator/mod.rs                     | 24 ++++++++++++++++---
 3 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/core/config/transformer/merge_types/type_merger.rs b/src/core/config/transformer/merge_types/type_merger.rs
index 4cf82f8..45e3f52 100644
--- a/src/core/config/transformer/merge_types/type_merger.rs
+++ b/src/core/config/transformer/merge_types/type_merger.rs
@@ -98,7 +98,11 @@ impl TypeMerger {
         // step 2: merge similar types into single merged type.
         for same_types in similar_type_group_list {
             let mut merged_into = Type::default();
-            let merged_type_name = format!("{}M{}", PREFIX, merge_counter);
+            let mut merged_type_name = format!("{}M{}", PREFIX, merge_counter);
+            while config.contains(&merged_type_name) {
+                merge_counter += 1;
+                merged_type_name = format!("{}M{}", PREFIX, merge_counter);
+            }
             let mut did_we_merge = false;
             for type_name in same_types {
                 if let Some(type_) = config.types.get(type_name.as_str()) {
diff --git a/src/core/generator/generator.rs b/src/core/generator/generator.rs
index 5bcee1f..10741a6 100644
--- a/src/core/generator/generator.rs
+++ b/src/core/generator/generator.rs
@@ -1,4 +1,4 @@
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, HashSet};
 
 use derive_setters::Setters;
 use prost_reflect::prost_types::FileDescriptorSet;
@@ -107,7 +107,17 @@ impl Generator {
     /// Generated the actual configuratio from provided samples.
     pub fn generate(&self, use_transformers: bool) -> anyhow::Result<ConfigModule> {
         let mut config: Config = Config::default();
-        let type_name_generator = NameGenerator::new(&self.type_name_prefix);
+        let mut reserved_names = HashSet::new();
+        for input in self.inputs.iter() {
+            if let Input::Config { source, schema } = input {
+                let config = Config::from_source(source.clone(), schema)?;
+                reserved_names.extend(config.types.into_keys());
+                reserved_names.extend(config.enums.into_keys());
+                reserved_names.extend(config.unions.into_keys());
+            }
+        }
+        let type_name_generator =
+            NameGenerator::new(&self.type_name_prefix).with_reserved(reserved_names);
 
         for input in self.inputs.iter() {
             match input {
diff --git a/src/core/generator/mod.rs b/src/core/generator/mod.rs
index 526d37a..9e147c0 100644
--- a/src/core/generator/mod.rs
+++ b/src/core/generator/mod.rs
@@ -10,6 +10,8 @@ pub use generator::{Generator, Input};
 #[cfg(verif_hooks)]
 pub use graphql_type::{GraphQLType, Parsed, Unparsed};
 
+use std::collections::HashSet;
+
 use crate::core::counter::{Count, Counter};
 
 // it's used as prefix to all the names which are auto generated.
@@ -18,15 +20,31 @@ pub const PREFIX: &str = "GEN__";
 pub struct NameGenerator {
     counter: Counter<u64>,
     prefix: String,
+    reserved: HashSet<String>,
 }
 
 impl NameGenerator {
     pub fn new(prefix: &str) -> Self {
-        Self { counter: Counter::new(1), prefix: prefix.to_string() }
+        Self {
+            counter: Counter::new(1),
+            prefix: prefix.to_string(),
+            reserved: HashSet::new(),
+        }
+    }
+
+    /// names which are in use already and must not be generated
+    pub fn with_reserved(mut self, reserved: HashSet<String>) -> Self {
+        self.reserved = reserved;
+        self
     }
 
     pub fn next(&self) -> String {
-        let id = self.counter.next();
-        format!("{}{}", self.prefix, id)
+        loop {
+            let id = self.counter.next();
+            let name = format!("{}{}", self.prefix, id);
+            if !self.reserved.contains(&name) {
+                return name;
+            }
+        }
     }
 }
-- 
2.43.0


From 4125c844afa8f0776e6806a3bde8ff00afb85ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 088/122] fix: types that are split into input and output don't
 replace other types

A type used as input and output got the name of another type, e.g. News the one of
NewsInput, which was lost.
---
 src/core/config/transformer/ambiguous_type.rs | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/core/config/transformer/ambiguous_type.rs b/src/core/config/transformer/ambiguous_type.rs
index 3a3a9dc..9ea71d5 100644
--- a/src/core/config/transformer/ambiguous_type.rs
+++ b/src/core/config/transformer/ambiguous_type.rs
@@ -35,6 +35,22 @@ impl AmbiguousType {
     pub fn new(resolver: impl Fn(&str) -> Resolution + 'static) -> Self {
         Self { resolver: Box::new(resolver) }
     }
+
+    /// resolves the name to the ones that aren't used by other types
+    fn resolve(&self, current_name: &str, config: &Config) -> Resolution {
+        let unused_name = |name: String| {
+            if name == current_name || !config.contains(&name) {
+                return name;
+            }
+            (2..)
+                .map(|index| format!("{}{}", name, index))
+                .find(|name| !config.contains(name))
+                .unwrap_or(name)
+        };
+        let Resolution { input, output } = (self.resolver)(current_name);
+
+        Resolution { input: unused_name(input), output: unused_name(output) }
+    }
 }
 
 fn insert_resolution(
@@ -64,7 +80,7 @@ impl Transform for AmbiguousType {
         let mut output_types = config.output_types();
         Valid::from_iter(input_types.intersection(&output_types), |current_name| {
             // Iterate over intersection of input and output types
-            let resolution = (self.resolver)(current_name);
+            let resolution = self.resolve(current_name, &config);
 
             if !resolution.is_unique() {
                 Valid::fail(format!(
@@ -83,7 +99,7 @@ impl Transform for AmbiguousType {
                             if output_types.contains(args.type_of.name())
                                 && !resolution_map.contains_key(args.type_of.name())
                             {
-                                let resolution = (self.resolver)(args.type_of.name());
+                                let resolution = self.resolve(args.type_of.name(), &config);
                                 resolution_map = insert_resolution(
                                     resolution_map,
                                     args.type_of.name(),
-- 
2.43.0


From ce80735955be85d929ede2f3e16b6f305a56dea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 089/122] fix: no interface or variant without fields is
 generated for a message of oneofs only

---
 src/core/generator/from_proto.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core/generator/from_proto.rs b/src/core/generator/from_proto.rs
index 0a8b6f5..695b50e 100644
--- a/src/core/generator/from_proto.rs
+++ b/src/core/generator/from_proto.rs
@@ -144,15 +144,25 @@ impl Context {
         let mut union_ = Union::default();
         let interface_name = format!("{type_name}__Interface");
 
+        // graphql has no interfaces or objects without fields
+        let has_interface = !base_type.fields.is_empty();
+
         for (type_name, mut ty) in union_types {
-            ty.implements.insert(interface_name.clone());
+            if ty.fields.is_empty() {
+                continue;
+            }
+            if has_interface {
+                ty.implements.insert(interface_name.clone());
+            }
             union_.types.insert(type_name.clone());
 
             self = self.insert_type(type_name, ty);
         }
 
         // base interface type
-        self.config.types.insert(interface_name, base_type);
+        if has_interface {
+            self.config.types.insert(interface_name, base_type);
+        }
         self.config.unions.insert(type_name, union_);
 
         self
-- 
2.43.0


From 71ef3883edf56ea85ce0e128b124ce92d2d13ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:12 +0000
Subject: [PATCH 090/122] fix: a message without fields fits the type generated
 for it

---
 src/core/json/json_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/json/json_schema.rs b/src/core/json/json_schema.rs
index bf24a21..02a6c46 100644
--- a/src/core/json/json_schema.rs
+++ b/src/core/json/json_schema.rs
@@ -195,7 +195,7 @@ impl JsonSchema {
                     })
                     .trace(name)
                     .unit();
-                } else {
+                } else if sub_type != &JsonSchema::Empty || !expected.is_empty() {
                     return fail;
                 }
             }
-- 
2.43.0


From 5c9ff0994f2512dcb277f08e9ab05f6665256112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:19 +0000
Subject: [PATCH 091/122] fix: all values of a repeated client header are
 forwarded

---
 src/core/http/request_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index a6fe325..9fde14f 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -156,7 +156,7 @@ fn create_allowed_headers(headers: &HeaderMap, allowed: &BTreeSet<String>) -> He
             .iter()
             .any(|allowed_key| allowed_key.eq_ignore_ascii_case(k.as_str()))
         {
-            new_headers.insert(k, v.clone());
+            new_headers.append(k, v.clone());
         }
     }
     new_headers
-- 
2.43.0


From 96ef176f623ac0de6f234a50e45418e0d3831091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:19 +0000
Subject: [PATCH 092/122] fix: a cache-control header is read completely

---
 src/core/http/cache.rs           | 40 ++++++++++++++++++++++++++++----
 src/core/http/request_context.rs |  4 ++--
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/core/http/cache.rs b/src/core/http/cache.rs
index 6681fa4..f745762 100644
--- a/src/core/http/cache.rs
+++ b/src/core/http/cache.rs
@@ -1,12 +1,44 @@
-use cache_control::CacheControl;
+use std::time::Duration;
+
+use cache_control::{Cachability, CacheControl};
 
 use super::Response;
 
+/// Collects the directives of all the cache-control headers of a response.
+/// Whenever directives are in conflict the most restrictive one is used.
 pub fn cache_policy(res: &Response<async_graphql::Value>) -> Option<CacheControl> {
-    let header = res.headers.get(http::header::CACHE_CONTROL)?;
-    let value = header.to_str().ok()?;
+    let mut headers = res
+        .headers
+        .get_all(http::header::CACHE_CONTROL)
+        .iter()
+        .filter_map(|header| header.to_str().ok())
+        .peekable();
+    headers.peek()?;
+
+    let mut policy = CacheControl::default();
+
+    for directive in headers.flat_map(|header| header.split(',')) {
+        let (name, value) = directive.split_once('=').unwrap_or((directive, ""));
+
+        match name.trim().to_ascii_lowercase().as_str() {
+            "private" => policy.cachability = Some(Cachability::Private),
+            "no-cache" => {
+                policy.no_store = true;
+                policy.cachability = policy.cachability.or(Some(Cachability::NoCache));
+            }
+            "no-store" => policy.no_store = true,
+            "public" => policy.cachability = policy.cachability.or(Some(Cachability::Public)),
+            "max-age" | "s-maxage" => {
+                // the response is already stale if its age is not valid
+                let seconds = value.trim().trim_matches('"').parse().unwrap_or_default();
+                let max_age = Duration::from_secs(seconds);
+                policy.max_age = Some(policy.max_age.unwrap_or(max_age).min(max_age));
+            }
+            _ => {}
+        }
+    }
 
-    CacheControl::from_value(value)
+    Some(policy)
 }
 
 #[cfg(test)]
diff --git a/src/core/http/request_context.rs b/src/core/http/request_context.rs
index 23cd4be..c782dde 100644
--- a/src/core/http/request_context.rs
+++ b/src/core/http/request_context.rs
@@ -91,10 +91,10 @@ impl RequestContext {
 
     pub fn set_cache_control(&self, cache_policy: CacheControl) {
         if let Some(max_age) = cache_policy.max_age {
-            self.set_min_max_age(max_age.as_secs() as i32);
+            self.set_min_max_age(max_age.as_secs().try_into().unwrap_or(i32::MAX));
         }
         self.set_cache_visibility(&cache_policy.cachability);
-        if Some(Cachability::NoCache) == cache_policy.cachability {
+        if cache_policy.no_store || Some(Cachability::NoCache) == cache_policy.cachability {
             self.set_min_max_age(-1);
         }
     }
-- 
2.43.0


From 5f19d3ee2d0fc29280a1ceb3d7b07f3b68a87226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:19 +0000
Subject: [PATCH 093/122] fix: configured response headers are set on answers
 to malformed requests

---
 src/core/http/request_handler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 9fde14f..6aa16a3 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -122,7 +122,9 @@ pub async fn graphql_request<T: DeserializeOwned + GraphQLRequestLike>(
                 ServerError::new(format!("Unexpected GraphQL Request: {}", err), None);
             response.errors = vec![server_error];
 
-            Ok(GraphQLResponse::from(response).into_response()?)
+            let mut response = GraphQLResponse::from(response).into_response()?;
+            update_response_headers(&mut response, &req_ctx, app_ctx);
+            Ok(response)
         }
     }
 }
-- 
2.43.0


From 59af1fa47e6aba4df027405ee674967c7b6afe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:32 +0000
Subject: [PATCH 094/122] fix: header values of @graphQL are sent without the
 quotes of a graphql string

---
 src/core/graphql/request_template.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/core/graphql/request_template.rs b/src/core/graphql/request_template.rs
index e597173..19fead3 100644
--- a/src/core/graphql/request_template.rs
+++ b/src/core/graphql/request_template.rs
@@ -15,7 +15,7 @@ use crate::core::helpers::headers::MustacheHeaders;
 use crate::core::http::Method::POST;
 use crate::core::ir::model::{CacheKey, IoId};
 use crate::core::ir::{GraphQLOperationContext, RelatedFields};
-use crate::core::mustache::Mustache;
+use crate::core::mustache::{Mustache, Segment};
 use crate::core::path::{PathGraphql, PathString};
 
 /// Represents a GraphQL selection that can either be resolved or unresolved.
@@ -64,7 +64,7 @@ impl RequestTemplate {
         let mut header_map = HeaderMap::new();
 
         for (k, v) in &self.headers {
-            if let Ok(header_value) = HeaderValue::from_str(&v.render_graphql(ctx)) {
+            if let Ok(header_value) = HeaderValue::from_str(&Self::render_header(v, ctx)) {
                 header_map.insert(k, header_value);
             }
         }
@@ -72,6 +72,21 @@ impl RequestTemplate {
         header_map
     }
 
+    /// renders plain text, where strings aren't graphql literals
+    fn render_header<C: PathGraphql>(value: &Mustache, ctx: &C) -> String {
+        value
+            .segments()
+            .iter()
+            .map(|segment| match segment {
+                Segment::Literal(text) => text.to_owned(),
+                Segment::Expression(parts) => {
+                    let value = ctx.path_graphql(parts).unwrap_or_default();
+                    serde_json::from_str(&value).unwrap_or(value)
+                }
+            })
+            .collect()
+    }
+
     fn set_headers<C: PathGraphql + HasHeaders>(
         &self,
         mut req: reqwest::Request,
-- 
2.43.0


From 858eca31677995926b3b1617eba1c6b1d7f24ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:44 +0000
Subject: [PATCH 095/122] fix: a template of a single expression that refers to
 null is null

---
 src/core/path.rs            |  8 ++++++++
 src/core/serde_value_ext.rs | 16 +++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/core/path.rs b/src/core/path.rs
index def67d0..f8f8ebb 100644
--- a/src/core/path.rs
+++ b/src/core/path.rs
@@ -38,6 +38,14 @@ impl PathString for serde_json::Value {
     }
 }
 
+impl PathValue for serde_json::Value {
+    fn raw_value<'a, T: AsRef<str>>(&'a self, path: &[T]) -> Option<ValueString<'a>> {
+        let value = self.get_path(path)?.clone();
+        let value = async_graphql::Value::from_json(value).ok()?;
+        Some(ValueString::Value(Cow::Owned(value)))
+    }
+}
+
 fn convert_value(value: Cow<'_, async_graphql::Value>) -> Option<Cow<'_, str>> {
     match value {
         Cow::Owned(async_graphql::Value::String(s)) => Some(Cow::Owned(s)),
diff --git a/src/core/serde_value_ext.rs b/src/core/serde_value_ext.rs
index 37a095a..fdc4699 100644
--- a/src/core/serde_value_ext.rs
+++ b/src/core/serde_value_ext.rs
@@ -4,17 +4,27 @@ use async_graphql::{Name, Value as GraphQLValue};
 use indexmap::IndexMap;
 
 use crate::core::blueprint::DynamicValue;
-use crate::core::path::PathString;
+use crate::core::mustache::Segment;
+use crate::core::path::{PathString, PathValue, ValueString};
 
 pub trait ValueExt {
-    fn render_value(&self, ctx: &impl PathString) -> GraphQLValue;
+    fn render_value(&self, ctx: &(impl PathString + PathValue)) -> GraphQLValue;
 }
 
 impl ValueExt for DynamicValue<async_graphql::Value> {
-    fn render_value<'a>(&self, ctx: &'a impl PathString) -> GraphQLValue {
+    fn render_value<'a>(&self, ctx: &'a (impl PathString + PathValue)) -> GraphQLValue {
         match self {
             DynamicValue::Value(value) => value.to_owned(),
             DynamicValue::Mustache(m) => {
+                // null has no text of its own in the templates
+                if let [Segment::Expression(parts)] = m.segments().as_slice() {
+                    if let Some(ValueString::Value(value)) = ctx.raw_value(parts) {
+                        if *value == GraphQLValue::Null {
+                            return GraphQLValue::Null;
+                        }
+                    }
+                }
+
                 let rendered: Cow<'a, str> = Cow::Owned(m.render(ctx));
 
                 serde_json::from_str::<GraphQLValue>(rendered.as_ref())
-- 
2.43.0


From 4b1b0e5d9c7a5cb8e73d2069b755ed47c380d706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:43 +0000
Subject: [PATCH 096/122] fix: an added field keeps its name and value when its
 source is renamed

---
 src/core/blueprint/definitions.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/blueprint/definitions.rs b/src/core/blueprint/definitions.rs
index 6afa285..dd822fb 100644
--- a/src/core/blueprint/definitions.rs
+++ b/src/core/blueprint/definitions.rs
@@ -352,9 +352,12 @@ fn to_fields(
             .fields
             .iter()
             .find(|&(field_name, _)| Some(field_name) == add_field.path.first());
+        // the modifications of the source field are its own
+        let source_field =
+            source_field.map(|(_, field)| config::Field { modify: None, ..field.clone() });
         match source_field {
-            Some((_, source_field)) => to_field_definition(
-                source_field,
+            Some(source_field) => to_field_definition(
+                &source_field,
                 &operation_type,
                 object_name,
                 config_module,
@@ -390,7 +393,7 @@ fn to_fields(
                 update_resolver_from_path(
                     &ProcessPathContext {
                         path: &add_field.path[1..],
-                        field: source_field,
+                        field: &source_field,
                         config_module,
                         invalid_path_handler: &invalid_path_handler,
                         path_resolver_error_handler: &path_resolver_error_handler,
-- 
2.43.0


From 9a73a4d25378ccd778633377036b83ced9253130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 097/122] fix: arguments a step of a call leaves out have their
 default values

---
 src/core/blueprint/operators/call.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/core/blueprint/operators/call.rs b/src/core/blueprint/operators/call.rs
index 1fec941..5994a44 100644
--- a/src/core/blueprint/operators/call.rs
+++ b/src/core/blueprint/operators/call.rs
@@ -1,5 +1,6 @@
 use std::collections::HashSet;
 
+use async_graphql_value::{ConstValue, Name};
 use serde_json::Value;
 use tailcall_valid::{Valid, Validator};
 
@@ -67,6 +68,7 @@ pub fn compile_call(
                     Ok(value) => Valid::succeed(value),
                     Err(e) => Valid::fail(BlueprintError::Error(e)),
                 }
+                .and_then(|value| add_default_args(value, field))
                 .map(IR::Dynamic),
             )
             .map(|(mut b_field, args_expr)| {
@@ -99,6 +101,29 @@ pub fn compile_call(
     })
 }
 
+/// Completes the arguments given to a field with the default values of others
+fn add_default_args(
+    value: DynamicValue<ConstValue>,
+    field: &Field,
+) -> Valid<DynamicValue<ConstValue>, BlueprintError> {
+    let DynamicValue::Object(mut args) = value else {
+        return Valid::succeed(value);
+    };
+
+    for (name, arg) in field.args.iter() {
+        if let Some(default_value) = arg.default_value.as_ref() {
+            if !args.contains_key(name.as_str()) {
+                match ConstValue::from_json(default_value.clone()) {
+                    Ok(value) => args.insert(Name::new(name), DynamicValue::Value(value)),
+                    Err(e) => return Valid::fail(BlueprintError::InvalidJson(e.into())),
+                };
+            }
+        }
+    }
+
+    Valid::succeed(DynamicValue::Object(args))
+}
+
 /// Follows the steps of the call, and of the calls these lead to, and describes
 /// the first one that leads back to a field it has come through.
 fn find_cycle(
-- 
2.43.0


From f2529cadec6bd33f790e2281f362ad29c804a50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:51 +0000
Subject: [PATCH 098/122] fix: a file write reports success only when the
 content is written

---
 src/cli/runtime/file.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cli/runtime/file.rs b/src/cli/runtime/file.rs
index 72a5516..8aba54c 100644
--- a/src/cli/runtime/file.rs
+++ b/src/cli/runtime/file.rs
@@ -21,6 +21,8 @@ async fn read(path: &str) -> anyhow::Result<String> {
 async fn write<'a>(path: &'a str, content: &'a [u8]) -> anyhow::Result<()> {
     let mut file = tokio::fs::File::create(path).await?;
     file.write_all(content).await?;
+    // the file buffers: its last part is written, and can fail, after write_all
+    file.flush().await?;
     Ok(())
 }
 
-- 
2.43.0


From 7ad9a245c18c3efbaa1c86957cfb95180bab6099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 099/122] fix: a process variable that is not unicode does not
 stop the gateway

---
 src/cli/runtime/env.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cli/runtime/env.rs b/src/cli/runtime/env.rs
index 4c436ff..3a562a3 100644
--- a/src/cli/runtime/env.rs
+++ b/src/cli/runtime/env.rs
@@ -16,7 +16,12 @@ impl EnvIO for EnvNative {
 
 impl EnvNative {
     pub fn init() -> Self {
-        Self { vars: std::env::vars().collect() }
+        // std::env::vars panics when there is a variable that is not unicode
+        let vars = std::env::vars_os()
+            .filter_map(|(key, value)| Some((key.into_string().ok()?, value.into_string().ok()?)))
+            .collect();
+
+        Self { vars }
     }
 }
 
-- 
2.43.0


From cd1f0a832449ec333cf9d1435af04cef2ce02595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:04 +0000
Subject: [PATCH 100/122] fix: a query can't use up the stack or grow without
 end

---
 src/core/jit/builder.rs |  90 +++++++-------------
 src/core/jit/error.rs   |   4 +
 src/core/jit/limits.rs  | 184 ++++++++++++++++++++++++++++++++++++++++
 src/core/jit/mod.rs     |   1 +
 src/core/jit/request.rs |   3 +-
 5 files changed, 221 insertions(+), 61 deletions(-)
 create mode 100644 src/core/jit/limits.rs

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index fec7020..66b4bd2 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -1,4 +1,4 @@
-use std::collections::{BTreeMap, HashMap, HashSet};
+use std::collections::{HashMap, HashSet};
 use std::ops::Deref;
 use std::sync::Arc;
 
@@ -10,7 +10,7 @@ use async_graphql::Positioned;
 use async_graphql_value::Value;
 
 use super::model::{Directive as JitDirective, *};
-use super::BuildError;
+use super::{limits, BuildError};
 use crate::core::blueprint::{Blueprint, Index, QueryField};
 use crate::core::counter::{Count, Counter};
 use crate::core::jit::model::OperationPlan;
@@ -296,11 +296,15 @@ impl<'a> Builder<'a> {
             );
         }
 
-        selected
-            .into_iter()
-            .flat_map(|selected| self.per_object(selected))
-            .filter_map(|selected| self.to_field(selected, fragments))
-            .collect()
+        let mut fields = Vec::with_capacity(selected.len());
+        for selected in selected {
+            for selected in self.per_object(selected) {
+                if let Some(field) = self.to_field(selected, fragments) {
+                    fields.push(field);
+                }
+            }
+        }
+        fields
     }
 
     /// Objects may resolve a field of the interface they implement on their own.
@@ -477,63 +481,26 @@ impl<'a> Builder<'a> {
         }
     }
 
-    /// Fragments that spread themselves have no end.
-    fn validate_fragments(
-        fragments: &HashMap<&str, &FragmentDefinition>,
-    ) -> Result<(), BuildError> {
-        fn spreads<'b>(selection: &'b SelectionSet, names: &mut Vec<&'b str>) {
-            for item in &selection.items {
-                match &item.node {
-                    Selection::Field(field) => spreads(&field.node.selection_set.node, names),
-                    Selection::InlineFragment(fragment) => {
-                        spreads(&fragment.node.selection_set.node, names)
-                    }
-                    Selection::FragmentSpread(spread) => {
-                        names.push(spread.node.fragment_name.node.as_str())
-                    }
-                }
-            }
-        }
-
-        // repeatedly leave out the fragments that spread no other fragment
-        let mut remaining = fragments
-            .iter()
-            .map(|(name, fragment)| {
-                let mut names = Vec::new();
-                spreads(&fragment.selection_set.node, &mut names);
-                (*name, names)
-            })
-            .collect::<BTreeMap<_, _>>();
-        loop {
-            let names = remaining.keys().copied().collect::<HashSet<_>>();
-            remaining.retain(|_, spreads| spreads.iter().any(|spread| names.contains(spread)));
-            if remaining.len() == names.len() {
-                break;
-            }
-        }
-
-        match remaining.into_keys().next() {
-            Some(name) => Err(BuildError::FragmentCycle(name.to_string())),
-            None => Ok(()),
-        }
-    }
-
-    fn is_introspection(
-        selection: &SelectionSet,
-        fragments: &HashMap<&str, &FragmentDefinition>,
+    /// Whether the operation asks for the schema
+    fn is_introspection<'b>(
+        selection: &'b SelectionSet,
+        fragments: &HashMap<&'b str, &'b FragmentDefinition>,
+        visited: &mut HashSet<&'b str>,
     ) -> bool {
         selection.items.iter().any(|item| match &item.node {
             Selection::Field(field) => {
                 matches!(field.node.name.node.as_str(), "__schema" | "__type")
             }
             Selection::InlineFragment(fragment) => {
-                Self::is_introspection(&fragment.node.selection_set.node, fragments)
+                Self::is_introspection(&fragment.node.selection_set.node, fragments, visited)
+            }
+            Selection::FragmentSpread(spread) => {
+                let name = spread.node.fragment_name.node.as_str();
+                visited.insert(name)
+                    && fragments.get(name).is_some_and(|fragment| {
+                        Self::is_introspection(&fragment.selection_set.node, fragments, visited)
+                    })
             }
-            Selection::FragmentSpread(spread) => fragments
-                .get(spread.node.fragment_name.node.as_str())
-                .is_some_and(|fragment| {
-                    Self::is_introspection(&fragment.selection_set.node, fragments)
-                }),
         })
     }
 
@@ -586,11 +553,14 @@ impl<'a> Builder<'a> {
         let name = self
             .get_type(operation.ty)
             .ok_or(BuildError::RootOperationTypeNotDefined { operation: operation.ty })?;
-        Self::validate_fragments(&fragments)?;
+        limits::check_operation(operation, &fragments)?;
         let fields = self.iter(&[&operation.selection_set.node], name, &fragments);
 
-        let is_introspection_query =
-            Self::is_introspection(&operation.selection_set.node, &fragments);
+        let is_introspection_query = Self::is_introspection(
+            &operation.selection_set.node,
+            &fragments,
+            &mut HashSet::new(),
+        );
 
         let mut plan = OperationPlan::new(
             name,
diff --git a/src/core/jit/error.rs b/src/core/jit/error.rs
index 6b8effd..a13c173 100644
--- a/src/core/jit/error.rs
+++ b/src/core/jit/error.rs
@@ -16,6 +16,10 @@ pub enum BuildError {
     OperationNameRequired,
     #[error(r#"Fragment "{0}" spreads itself"#)]
     FragmentCycle(String),
+    #[error("Query is nested deeper than {0} levels")]
+    NestedTooDeep(usize),
+    #[error("Query selects more than {0} fields")]
+    TooManyFields(usize),
 }
 
 #[derive(Error, Debug, Clone, PartialEq, Eq)]
diff --git a/src/core/jit/limits.rs b/src/core/jit/limits.rs
new file mode 100644
index 0000000..a85e5fe
--- /dev/null
+++ b/src/core/jit/limits.rs
@@ -0,0 +1,184 @@
+//! Bounds of what a document may ask for. Documents are processed recursively,
+//! without the bounds one that is nested deep enough would use up the stack,
+//! and fragments that spread each other repeatedly grow exponentially.
+
+use std::collections::HashMap;
+
+use async_graphql::parser::types::{
+    FragmentDefinition, OperationDefinition, Selection, SelectionSet,
+};
+
+use super::BuildError;
+
+/// How deep the brackets of a document may nest
+const MAX_NESTING: usize = 200;
+/// How deep the fields and the fragments may nest, when every fragment is put
+/// in place of its spreads
+const MAX_DEPTH: usize = 100;
+/// How many fields there may be, when every fragment is put in place of its
+/// spreads
+const MAX_FIELDS: usize = 100_000;
+
+/// Checks the nesting of a document that isn't parsed yet
+pub fn check_nesting(document: &str) -> Result<(), BuildError> {
+    let mut depth: usize = 0;
+    let mut rest = document;
+    while let Some(index) = rest.find(['{', '[', '(', '}', ']', ')', '"', '#']) {
+        let (token, tail) = rest[index..].split_at(1);
+        rest = match token {
+            "#" => tail.find(['\n', '\r']).map_or("", |end| &tail[end..]),
+            "\"" => match tail.strip_prefix("\"\"") {
+                Some(tail) => skip_block_string(tail),
+                None => skip_string(tail),
+            },
+            "{" | "[" | "(" => {
+                depth += 1;
+                if depth > MAX_NESTING {
+                    return Err(BuildError::NestedTooDeep(MAX_NESTING));
+                }
+                tail
+            }
+            _ => {
+                depth = depth.saturating_sub(1);
+                tail
+            }
+        };
+    }
+    Ok(())
+}
+
+/// What follows a string of which the opening quote is already read
+fn skip_string(text: &str) -> &str {
+    let mut escaped = false;
+    for (index, byte) in text.bytes().enumerate() {
+        match byte {
+            _ if escaped => escaped = false,
+            b'\\' => escaped = true,
+            b'"' => return &text[index + 1..],
+            _ => {}
+        }
+    }
+    ""
+}
+
+/// What follows a block string of which the opening quotes are already read
+fn skip_block_string(text: &str) -> &str {
+    const QUOTES: &str = "\"\"\"";
+    let mut rest = text;
+    while let Some(end) = rest.find(QUOTES) {
+        let is_escaped = rest[..end].ends_with('\\');
+        rest = &rest[end + QUOTES.len()..];
+        if !is_escaped {
+            return rest;
+        }
+    }
+    ""
+}
+
+/// The size of a selection with every fragment put in place
+#[derive(Clone, Copy, Default)]
+struct Extent {
+    depth: usize,
+    fields: usize,
+}
+
+impl Extent {
+    fn of(selection: &SelectionSet, fragments: &HashMap<&str, Extent>) -> Extent {
+        let mut extent = Extent::default();
+        for item in &selection.items {
+            let (inner, fields) = match &item.node {
+                Selection::Field(field) => {
+                    (Extent::of(&field.node.selection_set.node, fragments), 1)
+                }
+                Selection::InlineFragment(fragment) => {
+                    (Extent::of(&fragment.node.selection_set.node, fragments), 0)
+                }
+                Selection::FragmentSpread(spread) => (
+                    fragments
+                        .get(spread.node.fragment_name.node.as_str())
+                        .copied()
+                        .unwrap_or_default(),
+                    0,
+                ),
+            };
+            extent.depth = extent.depth.max(inner.depth.saturating_add(1));
+            extent.fields = extent
+                .fields
+                .saturating_add(inner.fields)
+                .saturating_add(fields);
+        }
+        extent
+    }
+}
+
+fn spreads<'a>(selection: &'a SelectionSet, names: &mut Vec<&'a str>) {
+    for item in &selection.items {
+        match &item.node {
+            Selection::Field(field) => spreads(&field.node.selection_set.node, names),
+            Selection::InlineFragment(fragment) => {
+                spreads(&fragment.node.selection_set.node, names)
+            }
+            Selection::FragmentSpread(spread) => {
+                names.push(spread.node.fragment_name.node.as_str())
+            }
+        }
+    }
+}
+
+/// Checks that the operation has an end and stays within the bounds
+pub fn check_operation(
+    operation: &OperationDefinition,
+    fragments: &HashMap<&str, &FragmentDefinition>,
+) -> Result<(), BuildError> {
+    // the number of fragments a fragment waits for, and the ones waiting for it
+    let mut waits: HashMap<&str, usize> = HashMap::new();
+    let mut waiting: HashMap<&str, Vec<&str>> = HashMap::new();
+    for (name, fragment) in fragments {
+        let mut names = Vec::new();
+        spreads(&fragment.selection_set.node, &mut names);
+        names.retain(|name| fragments.contains_key(name));
+        waits.insert(name, names.len());
+        for other in names {
+            waiting.entry(other).or_default().push(name);
+        }
+    }
+
+    let mut extents = HashMap::new();
+    let mut ready: Vec<&str> = waits
+        .iter()
+        .filter(|(_, waits)| **waits == 0)
+        .map(|(name, _)| *name)
+        .collect();
+    while let Some(name) = ready.pop() {
+        if let Some(fragment) = fragments.get(name) {
+            let extent = Extent::of(&fragment.selection_set.node, &extents);
+            extents.insert(name, extent);
+        }
+        for other in waiting.remove(name).unwrap_or_default() {
+            if let Some(count) = waits.get_mut(other) {
+                *count -= 1;
+                if *count == 0 {
+                    ready.push(other);
+                }
+            }
+        }
+    }
+
+    // Fragments that spread themselves have no end.
+    if let Some(name) = fragments
+        .keys()
+        .filter(|name| !extents.contains_key(*name))
+        .min()
+    {
+        return Err(BuildError::FragmentCycle(name.to_string()));
+    }
+
+    let extent = Extent::of(&operation.selection_set.node, &extents);
+    if extent.depth > MAX_DEPTH {
+        return Err(BuildError::NestedTooDeep(MAX_DEPTH));
+    }
+    if extent.fields > MAX_FIELDS {
+        return Err(BuildError::TooManyFields(MAX_FIELDS));
+    }
+    Ok(())
+}
diff --git a/src/core/jit/mod.rs b/src/core/jit/mod.rs
index a895399..9a1b054 100644
--- a/src/core/jit/mod.rs
+++ b/src/core/jit/mod.rs
@@ -10,6 +10,7 @@ use store::*;
 mod context;
 mod error;
 mod exec_const;
+mod limits;
 mod request;
 mod response;
 
diff --git a/src/core/jit/request.rs b/src/core/jit/request.rs
index f37c4a7..5c8355f 100644
--- a/src/core/jit/request.rs
+++ b/src/core/jit/request.rs
@@ -5,7 +5,7 @@ use async_graphql_value::ConstValue;
 use serde::Deserialize;
 use tailcall_valid::Validator;
 
-use super::{transform, Builder, OperationPlan, Result, Variables};
+use super::{limits, transform, Builder, OperationPlan, Result, Variables};
 use crate::core::blueprint::Blueprint;
 use crate::core::transform::TransformerOps;
 use crate::core::Transform;
@@ -41,6 +41,7 @@ impl Request<ConstValue> {
         &self,
         blueprint: &Blueprint,
     ) -> Result<OperationPlan<async_graphql_value::Value>> {
+        limits::check_nesting(&self.query)?;
         let doc = async_graphql::parser::parse_query(&self.query)?;
         let builder = Builder::new(blueprint, &doc);
         let plan = builder.build(self.operation_name.as_deref())?;
-- 
2.43.0


From bfc2d1c13619c95873737a7dda4e5cc0d576dd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:04 +0000
Subject: [PATCH 101/122] fix: a body of any bytes is read and reported

---
 src/core/http/request_handler.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 6aa16a3..4194891 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -4,6 +4,7 @@ use std::sync::Arc;
 
 use anyhow::Result;
 use async_graphql::ServerError;
+use hyper::body::Bytes;
 use hyper::header::{self, HeaderValue, CONTENT_TYPE};
 use hyper::http::request::Parts;
 use hyper::http::Method;
@@ -12,6 +13,7 @@ use opentelemetry::trace::SpanKind;
 use opentelemetry_semantic_conventions::trace::{HTTP_REQUEST_METHOD, HTTP_ROUTE};
 use prometheus::{Encoder, ProtobufEncoder, TextEncoder, TEXT_FORMAT};
 use serde::de::DeserializeOwned;
+use serde_json::json;
 use tracing::Instrument;
 use tracing_opentelemetry::OpenTelemetrySpanExt;
 
@@ -95,13 +97,10 @@ pub async fn graphql_request<T: DeserializeOwned + GraphQLRequestLike>(
     let bytes = if req.headers.get("content-type")
         == Some(&HeaderValue::from_str("application/graphql")?)
     {
-        let decoded_str = String::from_utf8_lossy(&bytes).clone();
-        let enriched_str = if decoded_str.contains("\\") {
-            format!(r#"{{"query": {} }}"#, decoded_str)
-        } else {
-            format!(r#"{{"query": {:?} }}"#, decoded_str)
-        };
-        hyper::body::to_bytes(enriched_str).await?
+        // either the document itself, or a JSON string of it
+        let query = serde_json::from_slice::<String>(&bytes)
+            .unwrap_or_else(|_| String::from_utf8_lossy(&bytes).into_owned());
+        Bytes::from(serde_json::to_vec(&json!({ "query": query }))?)
     } else {
         bytes
     };
@@ -114,7 +113,7 @@ pub async fn graphql_request<T: DeserializeOwned + GraphQLRequestLike>(
         Err(err) => {
             tracing::error!(
                 "Failed to parse request: {}",
-                String::from_utf8(bytes.to_vec()).unwrap()
+                String::from_utf8_lossy(&bytes)
             );
 
             let mut response = async_graphql::Response::default();
-- 
2.43.0


From 901c9496f0cf8461aa2207709431122d1c3d28fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:04 +0000
Subject: [PATCH 102/122] fix: a REST request whose body can't be read is
 answered

---
 src/core/http/request_handler.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 4194891..833047c 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -280,7 +280,17 @@ async fn handle_rest_apis(
             { HTTP_ROUTE } = http_route
         );
         return async {
-            let graphql_request = p_request.into_request(request).await?;
+            let graphql_request = match p_request.into_request(request).await {
+                Ok(graphql_request) => graphql_request,
+                Err(error) => {
+                    let error = ServerError::new(error.to_string(), None);
+                    let response = async_graphql::Response::from_errors(vec![error]);
+                    let mut response = GraphQLResponse::from(response).into_rest_response()?;
+                    *response.status_mut() = StatusCode::BAD_REQUEST;
+                    update_response_headers(&mut response, &req_ctx, &app_ctx);
+                    return Ok(response);
+                }
+            };
             let mut response = graphql_request
                 .data(req_ctx.clone())
                 .execute(&app_ctx.schema)
-- 
2.43.0


From 75f464076dcf73ca31ba50b5cfceb4604280cd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:04 +0000
Subject: [PATCH 103/122] fix: errors of REST operations name the type that
 isn't supported

---
 src/core/rest/error.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/rest/error.rs b/src/core/rest/error.rs
index f8d6190..d683943 100644
--- a/src/core/rest/error.rs
+++ b/src/core/rest/error.rs
@@ -9,10 +9,13 @@ use tailcall_valid::ValidationError;
 
 #[derive(From, thiserror::Error, Debug)]
 pub enum Error {
-    #[error("Unexpected Named Type: {}", 0.to_string())]
+    #[error("Unexpected Named Type: {}", _0)]
     UnexpectedNamedType(Name),
 
-    #[error("Unexpected Type: {}, expected a named type like String, Float, Boolean etc.", 0.to_string())]
+    #[error(
+        "Unexpected Type: {}, expected a named type like String, Float, Boolean etc.",
+        _0
+    )]
     UnexpectedType(Type),
 
     #[error("Serde Json Error: {}", _0)]
-- 
2.43.0


From 23604085c21f62abef658e1cd0353fdce27bfdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:49 +0000
Subject: [PATCH 104/122] fix: a URL that can't be built is reported, also when
 requests are shared

---
 src/core/grpc/request_template.rs | 3 ++-
 src/core/http/request_template.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/grpc/request_template.rs b/src/core/grpc/request_template.rs
index 4f1ff8b..d2c1497 100644
--- a/src/core/grpc/request_template.rs
+++ b/src/core/grpc/request_template.rs
@@ -121,7 +121,8 @@ impl RenderedRequestTemplate {
 impl<Ctx: PathString + HasHeaders> CacheKey<Ctx> for RequestTemplate {
     fn cache_key(&self, ctx: &Ctx) -> Option<IoId> {
         let mut hasher = TailcallHasher::default();
-        let rendered_req = self.render(ctx).unwrap();
+        // a request that can't be built is not shared, making it reports what's wrong
+        let rendered_req = self.render(ctx).ok()?;
         rendered_req.hash(&mut hasher);
 
         for (name, value) in rendered_req.headers.iter() {
diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 46b594a..1911ccc 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -280,7 +280,8 @@ impl<Ctx: PathString + HasHeaders + PathValue> CacheKey<Ctx> for RequestTemplate
             body.render(ctx).hash(state)
         }
 
-        let url = self.create_url(ctx).unwrap();
+        // a request that can't be built is not shared, making it reports what's wrong
+        let url = self.create_url(ctx).ok()?;
         url.hash(state);
 
         Some(IoId::new(hasher.finish()))
-- 
2.43.0


From 3c04038f31fc5c83897b885804596d96d4ad7807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:50 +0000
Subject: [PATCH 105/122] fix: a configuration can't use up the stack

---
 src/core/config/config.rs | 5 +++++
 src/core/jit/error.rs     | 2 +-
 src/core/jit/mod.rs       | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/config/config.rs b/src/core/config/config.rs
index e189802..813d017 100644
--- a/src/core/config/config.rs
+++ b/src/core/config/config.rs
@@ -22,6 +22,7 @@ use super::{
 use crate::core::config::npo::QueryPath;
 use crate::core::config::source::Source;
 use crate::core::is_default;
+use crate::core::jit::check_nesting;
 use crate::core::macros::MergeRight;
 use crate::core::merge_right::MergeRight;
 use crate::core::scalar::Scalar;
@@ -423,6 +424,10 @@ impl Config {
     }
 
     pub fn from_sdl(sdl: &str) -> Valid<Self, String> {
+        // parsing is recursive, and configurations may come from remote sources
+        if let Err(e) = check_nesting(sdl) {
+            return Valid::fail(e.to_string());
+        }
         let doc = async_graphql::parser::parse_schema(sdl);
         match doc {
             Ok(doc) => from_document(doc),
diff --git a/src/core/jit/error.rs b/src/core/jit/error.rs
index a13c173..3e054c4 100644
--- a/src/core/jit/error.rs
+++ b/src/core/jit/error.rs
@@ -16,7 +16,7 @@ pub enum BuildError {
     OperationNameRequired,
     #[error(r#"Fragment "{0}" spreads itself"#)]
     FragmentCycle(String),
-    #[error("Query is nested deeper than {0} levels")]
+    #[error("Document is nested deeper than {0} levels")]
     NestedTooDeep(usize),
     #[error("Query selects more than {0} fields")]
     TooManyFields(usize),
diff --git a/src/core/jit/mod.rs b/src/core/jit/mod.rs
index 9a1b054..928748d 100644
--- a/src/core/jit/mod.rs
+++ b/src/core/jit/mod.rs
@@ -11,6 +11,7 @@ mod context;
 mod error;
 mod exec_const;
 mod limits;
+pub(crate) use limits::check_nesting;
 mod request;
 mod response;
 
-- 
2.43.0


From c5de2551ea5432a28aa9334a97a736ad280eea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:13 +0000
Subject: [PATCH 106/122] fix: a value in place of an object is reported

---
 src/core/jit/error.rs       | 2 ++
 src/core/jit/synth/synth.rs | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/jit/error.rs b/src/core/jit/error.rs
index 3e054c4..9e8f3f2 100644
--- a/src/core/jit/error.rs
+++ b/src/core/jit/error.rs
@@ -42,6 +42,8 @@ pub enum ValidationError {
     ScalarInvalid { type_of: String },
     #[error(r#"internal: invalid item for enum "{type_of}""#)]
     EnumInvalid { type_of: String },
+    #[error(r#"internal: invalid value for object "{type_of}""#)]
+    ObjectInvalid { type_of: String },
     #[error("internal: non-null types require a return value")]
     ValueRequired,
 }
diff --git a/src/core/jit/synth/synth.rs b/src/core/jit/synth/synth.rs
index a5a6b55..a04f34d 100644
--- a/src/core/jit/synth/synth.rs
+++ b/src/core/jit/synth/synth.rs
@@ -282,7 +282,11 @@ where
 
                     Ok(Output::object(Output::JsonObject::from_vec(fields)))
                 }
-                _ => Ok(Output::clone_from(value)),
+                // there's nothing to select from any other value
+                None => Err(ValidationError::ObjectInvalid {
+                    type_of: node.type_of.name().to_string(),
+                }
+                .into()),
             }
         };
 
-- 
2.43.0


From 0d59d700036e25650ea88a636166c4f09ac98c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:57 +0000
Subject: [PATCH 107/122] fix: a list in place of a single value, or the other
 way around, is reported

---
 src/core/blueprint/definitions.rs | 10 +++++++---
 src/core/jit/error.rs             |  2 ++
 src/core/jit/synth/synth.rs       | 16 +++++++++++++---
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/core/blueprint/definitions.rs b/src/core/blueprint/definitions.rs
index dd822fb..5d2b25e 100644
--- a/src/core/blueprint/definitions.rs
+++ b/src/core/blueprint/definitions.rs
@@ -230,9 +230,13 @@ pub fn fix_dangling_resolvers<'a>() -> TryFold<
             if !field.has_resolver()
                 && validate_field_has_resolver(name, field, &config.types, &mut set).is_succeed()
             {
-                b_field = b_field.resolver(Some(IR::Dynamic(DynamicValue::Value(
-                    ConstValue::Object(Default::default()),
-                ))));
+                // there are no items a list could have
+                let value = if field.type_of.is_list() {
+                    ConstValue::Null
+                } else {
+                    ConstValue::Object(Default::default())
+                };
+                b_field = b_field.resolver(Some(IR::Dynamic(DynamicValue::Value(value))));
             }
 
             Valid::succeed(b_field)
diff --git a/src/core/jit/error.rs b/src/core/jit/error.rs
index 9e8f3f2..747ac58 100644
--- a/src/core/jit/error.rs
+++ b/src/core/jit/error.rs
@@ -42,6 +42,8 @@ pub enum ValidationError {
     ScalarInvalid { type_of: String },
     #[error(r#"internal: invalid item for enum "{type_of}""#)]
     EnumInvalid { type_of: String },
+    #[error(r#"internal: invalid value for list "{type_of}""#)]
+    ListInvalid { type_of: String },
     #[error(r#"internal: invalid value for object "{type_of}""#)]
     ObjectInvalid { type_of: String },
     #[error("internal: non-null types require a return value")]
diff --git a/src/core/jit/synth/synth.rs b/src/core/jit/synth/synth.rs
index a04f34d..39fdbcc 100644
--- a/src/core/jit/synth/synth.rs
+++ b/src/core/jit/synth/synth.rs
@@ -133,6 +133,12 @@ where
                 // the value of a scalar could be a list, it's up to the scalar
                 let is_list = value.as_array().is_some();
                 if node.type_of.is_list() != is_list && !(is_list && node.scalar.is_some()) {
+                    if !value.is_null() {
+                        let error = ValidationError::ListInvalid {
+                            type_of: node.type_of.name().to_string(),
+                        };
+                        return Err(self.to_location_error(error.into(), node, path));
+                    }
                     return self.node_nullable_guard(node, path, None);
                 }
                 self.iter_inner(node, same, &node.type_of, value, data_path, path)
@@ -227,6 +233,8 @@ where
                 ans.push(val);
             }
             Ok(Output::array(ans))
+        } else if type_of.is_list() {
+            Err(ValidationError::ListInvalid { type_of: node.type_of.name().to_string() }.into())
         } else if node.scalar.is_some() {
             let scalar = node.scalar.as_ref().unwrap();
 
@@ -283,10 +291,12 @@ where
                     Ok(Output::object(Output::JsonObject::from_vec(fields)))
                 }
                 // there's nothing to select from any other value
-                None => Err(ValidationError::ObjectInvalid {
-                    type_of: node.type_of.name().to_string(),
+                None => {
+                    Err(
+                        ValidationError::ObjectInvalid { type_of: node.type_of.name().to_string() }
+                            .into(),
+                    )
                 }
-                .into()),
             }
         };
 
-- 
2.43.0


From 7b480a9a26684a2aee06ab3b3facaabb61dd57e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:12 +0000
Subject: [PATCH 108/122] fix: the bounds of documents are part of the plan
 builder

---
 src/core/jit/builder.rs              | 5 ++++-
 src/core/jit/{ => builder}/limits.rs | 2 +-
 src/core/jit/mod.rs                  | 3 +--
 src/core/jit/request.rs              | 4 ++--
 4 files changed, 8 insertions(+), 6 deletions(-)
 rename src/core/jit/{ => builder}/limits.rs (99%)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index 66b4bd2..02d6313 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -10,12 +10,15 @@ use async_graphql::Positioned;
 use async_graphql_value::Value;
 
 use super::model::{Directive as JitDirective, *};
-use super::{limits, BuildError};
+use super::BuildError;
 use crate::core::blueprint::{Blueprint, Index, QueryField};
 use crate::core::counter::{Count, Counter};
 use crate::core::jit::model::OperationPlan;
 use crate::core::{scalar, Type};
 
+mod limits;
+pub(crate) use limits::check_nesting;
+
 #[derive(PartialEq, strum_macros::Display)]
 enum Condition {
     True,
diff --git a/src/core/jit/limits.rs b/src/core/jit/builder/limits.rs
similarity index 99%
rename from src/core/jit/limits.rs
rename to src/core/jit/builder/limits.rs
index a85e5fe..50bfe63 100644
--- a/src/core/jit/limits.rs
+++ b/src/core/jit/builder/limits.rs
@@ -8,7 +8,7 @@ use async_graphql::parser::types::{
     FragmentDefinition, OperationDefinition, Selection, SelectionSet,
 };
 
-use super::BuildError;
+use crate::core::jit::BuildError;
 
 /// How deep the brackets of a document may nest
 const MAX_NESTING: usize = 200;
diff --git a/src/core/jit/mod.rs b/src/core/jit/mod.rs
index 928748d..4be53d2 100644
--- a/src/core/jit/mod.rs
+++ b/src/core/jit/mod.rs
@@ -5,13 +5,12 @@ mod store;
 mod synth;
 mod transform;
 
+pub(crate) use builder::check_nesting;
 use builder::*;
 use store::*;
 mod context;
 mod error;
 mod exec_const;
-mod limits;
-pub(crate) use limits::check_nesting;
 mod request;
 mod response;
 
diff --git a/src/core/jit/request.rs b/src/core/jit/request.rs
index 5c8355f..213e8dc 100644
--- a/src/core/jit/request.rs
+++ b/src/core/jit/request.rs
@@ -5,7 +5,7 @@ use async_graphql_value::ConstValue;
 use serde::Deserialize;
 use tailcall_valid::Validator;
 
-use super::{limits, transform, Builder, OperationPlan, Result, Variables};
+use super::{check_nesting, transform, Builder, OperationPlan, Result, Variables};
 use crate::core::blueprint::Blueprint;
 use crate::core::transform::TransformerOps;
 use crate::core::Transform;
@@ -41,7 +41,7 @@ impl Request<ConstValue> {
         &self,
         blueprint: &Blueprint,
     ) -> Result<OperationPlan<async_graphql_value::Value>> {
-        limits::check_nesting(&self.query)?;
+        check_nesting(&self.query)?;
         let doc = async_graphql::parser::parse_query(&self.query)?;
         let builder = Builder::new(blueprint, &doc);
         let plan = builder.build(self.operation_name.as_deref())?;
-- 
2.43.0


From 1b890db3c0706a83407544334373aa76515f7cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:53 +0000
Subject: [PATCH 109/122] fix: hand on an upstream's GraphQL errors as they
 were received

---
 src/core/jit/graphql_error.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/jit/graphql_error.rs b/src/core/jit/graphql_error.rs
index 6d2e0a7..1be92d5 100644
--- a/src/core/jit/graphql_error.rs
+++ b/src/core/jit/graphql_error.rs
@@ -53,6 +53,12 @@ impl From<Positioned<super::Error>> for GraphQLError {
             return e.into();
         }
 
+        // an error that was reported by an upstream already has its own locations,
+        // path and extensions
+        if let super::Error::ServerError(e) = inner_value {
+            return e.into();
+        }
+
         let ext = inner_value.extend().extensions;
         let mut server_error = GraphQLError::new(inner_value.to_string(), Some(position));
         server_error.extensions = ext;
-- 
2.43.0


From 4ff949759c18b9e9c9fee7c0dda636523c8eff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:09 +0000
Subject: [PATCH 110/122] fix: requests with different headers are never loaded
 together

---
 src/core/grpc/data_loader_request.rs |  6 ++---
 src/core/http/data_loader.rs         |  9 +++++--
 src/core/http/data_loader_request.rs |  2 +-
 src/core/ir/eval_http.rs             | 37 +++++++++++++++++-----------
 4 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/core/grpc/data_loader_request.rs b/src/core/grpc/data_loader_request.rs
index 434e915..ba81449 100644
--- a/src/core/grpc/data_loader_request.rs
+++ b/src/core/grpc/data_loader_request.rs
@@ -18,7 +18,7 @@ impl Hash for DataLoaderRequest {
         self.template.body.hash(state);
 
         for name in &self.batch_headers {
-            if let Some(value) = self.template.headers.get(name) {
+            for value in self.template.headers.get_all(name) {
                 name.hash(state);
                 value.hash(state);
             }
@@ -46,12 +46,12 @@ impl DataLoaderRequest {
     }
 
     /// Values of the headers that are designated as significant for batching
-    pub fn headers(&self) -> Vec<Vec<http::HeaderValue>> {
+    pub fn headers(&self) -> Vec<(String, Vec<http::HeaderValue>)> {
         self.batch_headers
             .iter()
             .map(|name| {
                 let values = self.template.headers.get_all(name);
-                values.iter().cloned().collect()
+                (name.to_owned(), values.iter().cloned().collect())
             })
             .collect()
     }
diff --git a/src/core/http/data_loader.rs b/src/core/http/data_loader.rs
index 5748a5c..1710764 100644
--- a/src/core/http/data_loader.rs
+++ b/src/core/http/data_loader.rs
@@ -163,11 +163,16 @@ fn batch_id(request: &DataLoaderRequest, group_key: &str) -> impl PartialEq {
 }
 
 /// Values of the headers that are designated as significant for batching
-pub fn batch_headers(request: &DataLoaderRequest) -> Vec<Vec<reqwest::header::HeaderValue>> {
+pub fn batch_headers(
+    request: &DataLoaderRequest,
+) -> Vec<(String, Vec<reqwest::header::HeaderValue>)> {
     let headers = reqwest::Request::headers(request);
     DataLoaderRequest::headers(request)
         .iter()
-        .map(|name| headers.get_all(name).iter().cloned().collect())
+        .map(|name| {
+            let values = headers.get_all(name).iter().cloned().collect();
+            (name.to_owned(), values)
+        })
         .collect()
 }
 
diff --git a/src/core/http/data_loader_request.rs b/src/core/http/data_loader_request.rs
index 4631fdd..62bf89f 100644
--- a/src/core/http/data_loader_request.rs
+++ b/src/core/http/data_loader_request.rs
@@ -46,7 +46,7 @@ impl Hash for DataLoaderRequest {
             body.as_bytes().hash(state);
         }
         for name in &self.headers {
-            if let Some(value) = self.request.headers().get(name) {
+            for value in self.request.headers().get_all(name) {
                 name.hash(state);
                 value.hash(state);
             }
diff --git a/src/core/ir/eval_http.rs b/src/core/ir/eval_http.rs
index 8145119..fb162d9 100644
--- a/src/core/ir/eval_http.rs
+++ b/src/core/ir/eval_http.rs
@@ -1,3 +1,4 @@
+use std::collections::BTreeSet;
 use std::sync::Arc;
 
 use async_graphql::from_value;
@@ -144,6 +145,25 @@ impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context>
     }
 }
 
+/// Names of the headers that requests have to agree on to be loaded together.
+/// Apart from the configured ones that's everything the request is sent with:
+/// data loaders are shared by all the clients, and the response to a request
+/// must not be obtained with the headers of another one.
+fn significant_headers<Ctx: ResolverContextLike>(
+    ctx: &EvalContext<'_, Ctx>,
+    headers: &reqwest::header::HeaderMap,
+) -> BTreeSet<String> {
+    let mut names = ctx
+        .request_ctx
+        .upstream
+        .batch
+        .as_ref()
+        .map(|batch| batch.headers.clone())
+        .unwrap_or_default();
+    names.extend(headers.keys().map(|name| name.to_string()));
+    names
+}
+
 pub async fn execute_request_with_dl<
     'ctx,
     Ctx: ResolverContextLike,
@@ -157,15 +177,8 @@ pub async fn execute_request_with_dl<
     req: DynamicRequest<String>,
     data_loader: Option<&DataLoader<DataLoaderRequest, Dl>>,
 ) -> Result<Response<async_graphql::Value>, Error> {
-    let headers = ctx
-        .request_ctx
-        .upstream
-        .batch
-        .clone()
-        .map(|s| s.headers)
-        .unwrap_or_default();
-
     let (req, batching_value) = req.into_parts();
+    let headers = significant_headers(ctx, req.headers());
     let endpoint_key =
         crate::core::http::DataLoaderRequest::new(req, headers).with_batching_value(batching_value);
 
@@ -253,13 +266,7 @@ pub async fn execute_grpc_request_with_dl<
     rendered: RenderedRequestTemplate,
     data_loader: Option<&DataLoader<grpc::DataLoaderRequest, Dl>>,
 ) -> Result<Response<async_graphql::Value>, Error> {
-    let headers = ctx
-        .request_ctx
-        .upstream
-        .batch
-        .clone()
-        .map(|s| s.headers)
-        .unwrap_or_default();
+    let headers = significant_headers(ctx, &rendered.headers);
     let endpoint_key = grpc::DataLoaderRequest::new(rendered, headers);
 
     Ok(data_loader
-- 
2.43.0


From 9e687a19a5e747c50ba90821ac2a0433473bdfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:44 +0000
Subject: [PATCH 111/122] fix: fields of protobuf messages have their JSON
 names

---
 src/core/generator/from_proto.rs | 31 +++++++++++++++++++++++++------
 src/core/json/json_schema.rs     |  8 +++-----
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/core/generator/from_proto.rs b/src/core/generator/from_proto.rs
index 695b50e..7a5717d 100644
--- a/src/core/generator/from_proto.rs
+++ b/src/core/generator/from_proto.rs
@@ -4,7 +4,8 @@ use anyhow::{bail, Result};
 use derive_setters::Setters;
 use prost_reflect::prost_types::field_descriptor_proto::Label;
 use prost_reflect::prost_types::{
-    DescriptorProto, EnumDescriptorProto, FileDescriptorSet, ServiceDescriptorProto, SourceCodeInfo,
+    DescriptorProto, EnumDescriptorProto, FieldDescriptorProto, FileDescriptorSet,
+    ServiceDescriptorProto, SourceCodeInfo,
 };
 use serde_json::Value;
 use tailcall_valid::Validator;
@@ -15,9 +16,29 @@ use super::proto::path_builder::PathBuilder;
 use super::proto::path_field::PathField;
 use crate::core::config::transformer::{AmbiguousType, TreeShake};
 use crate::core::config::{self, Arg, Config, Enum, Field, Grpc, Resolver, Union, Variant};
+use crate::core::helpers::gql_type::is_valid_field_name;
 use crate::core::transform::{Transform, TransformerOps};
 use crate::core::Type;
 
+/// Name the field has in the JSON form of the message, that's where its values
+/// are taken from.
+fn json_name(field: &FieldDescriptorProto) -> String {
+    if let Some(name) = field.json_name.as_deref() {
+        if is_valid_field_name(name) {
+            return name.to_string();
+        }
+    }
+
+    let mut words = field.name().split('_');
+    let first = words.next().unwrap_or_default().to_string();
+    words.fold(first, |mut name, word| {
+        let mut chars = word.chars();
+        name.extend(chars.next().map(|first| first.to_ascii_uppercase()));
+        name.push_str(chars.as_str());
+        name
+    })
+}
+
 /// Assists in the mapping and retrieval of proto type names to custom formatted
 /// strings based on the descriptor type.
 #[derive(Setters)]
@@ -277,9 +298,7 @@ impl Context {
             };
 
             for (field_index, field) in message.field.iter().enumerate() {
-                let field_name = GraphQLType::new(field.name())
-                    .extend(self.namespace.as_slice())
-                    .into_field();
+                let field_name = json_name(field);
 
                 let mut cfg_field = Field::default();
 
@@ -317,9 +336,9 @@ impl Context {
                 cfg_field.doc = self.comments_builder.get_comments(&field_path);
 
                 if let Some(oneof_index) = field.oneof_index {
-                    oneof_fields[oneof_index as usize].push((field_name.to_string(), cfg_field));
+                    oneof_fields[oneof_index as usize].push((field_name, cfg_field));
                 } else {
-                    ty.fields.insert(field_name.to_string(), cfg_field);
+                    ty.fields.insert(field_name, cfg_field);
                 }
             }
 
diff --git a/src/core/json/json_schema.rs b/src/core/json/json_schema.rs
index 02a6c46..8015ec5 100644
--- a/src/core/json/json_schema.rs
+++ b/src/core/json/json_schema.rs
@@ -1,7 +1,6 @@
 use std::collections::{BTreeMap, BTreeSet};
 use std::fmt::Display;
 
-use convert_case::{Case, Casing};
 use prost_reflect::{EnumDescriptor, FieldDescriptor, Kind, MessageDescriptor};
 use serde::{Deserialize, Serialize};
 use tailcall_valid::{Valid, Validator};
@@ -267,10 +266,9 @@ fn from_message(
     for field in fields {
         let field_schema = from_field(&field, parents)?;
 
-        // the snake_case for field names is automatically converted to camelCase
-        // by prost on serde serialize/deserealize and in graphql type name should be in
-        // camelCase as well, so convert field.name to camelCase here
-        map.insert(field.name().to_case(Case::Camel), field_schema);
+        // on serde serialize/deserealize prost uses the JSON names of the fields, in
+        // graphql type they should have the same names
+        map.insert(field.json_name().to_string(), field_schema);
     }
 
     parents.pop();
-- 
2.43.0


From d1c271bc856401f4b56f29aeb5566ae7bc57c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:56 +0000
Subject: [PATCH 112/122] fix: a compressed grpc message is an error

---
 src/core/grpc/protobuf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/grpc/protobuf.rs b/src/core/grpc/protobuf.rs
index 36ebdff..e9899da 100644
--- a/src/core/grpc/protobuf.rs
+++ b/src/core/grpc/protobuf.rs
@@ -218,6 +218,9 @@ impl ProtobufOperation {
         // see https://www.oreilly.com/library/view/grpc-up-and/9781492058328/ch04.html#:~:text=Length%2DPrefixed%20Message%20Framing
         // 1st byte - compression flag
         // 2-4th bytes - length of the message
+        if bytes[0] != 0 {
+            bail!("Compressed response is not supported");
+        }
         let message =
             DynamicMessage::decode(self.output_type.clone(), &bytes[5..]).with_context(|| {
                 format!(
-- 
2.43.0


From c4366b6fec5cbbbb1983b246ee1d55a3a6725b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:00 +0000
Subject: [PATCH 113/122] fix: null leaves an optional field of a protobuf
 message out

---
 src/core/grpc/protobuf.rs | 67 ++++++++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 12 deletions(-)

diff --git a/src/core/grpc/protobuf.rs b/src/core/grpc/protobuf.rs
index e9899da..ca1a12a 100644
--- a/src/core/grpc/protobuf.rs
+++ b/src/core/grpc/protobuf.rs
@@ -6,25 +6,68 @@ use prost::bytes::BufMut;
 use prost::Message;
 use prost_reflect::prost_types::FileDescriptorSet;
 use prost_reflect::{
-    DescriptorPool, DynamicMessage, MessageDescriptor, MethodDescriptor, SerializeOptions,
+    DescriptorPool, DynamicMessage, Kind, MessageDescriptor, MethodDescriptor, SerializeOptions,
     ServiceDescriptor,
 };
-use serde_json::Deserializer;
 
 use crate::core::blueprint::GrpcMethod;
 
 fn to_message(descriptor: &MessageDescriptor, input: &str) -> Result<DynamicMessage> {
-    let mut deserializer = Deserializer::from_str(input);
-    let message =
-        DynamicMessage::deserialize(descriptor.clone(), &mut deserializer).with_context(|| {
-            format!(
-                "Failed to parse input according to type {}",
-                descriptor.full_name()
-            )
-        })?;
-    deserializer.end()?;
+    let context = || {
+        format!(
+            "Failed to parse input according to type {}",
+            descriptor.full_name()
+        )
+    };
+    let mut input = serde_json::from_str::<serde_json::Value>(input).with_context(context)?;
+    skip_nulls(descriptor, &mut input);
+
+    DynamicMessage::deserialize(descriptor.clone(), input).with_context(context)
+}
 
-    Ok(message)
+/// In JSON `null` stands for the absence of a field, while the fields that
+/// track their presence (`optional` and the members of `oneof`) would be set to
+/// their default value by the deserializer.
+fn skip_nulls(descriptor: &MessageDescriptor, input: &mut serde_json::Value) {
+    // well-known types have JSON representation of their own
+    if descriptor.package_name() == "google.protobuf" {
+        return;
+    }
+    let Some(object) = input.as_object_mut() else {
+        return;
+    };
+    let find = |name: &str| {
+        descriptor
+            .get_field_by_json_name(name)
+            .or_else(|| descriptor.get_field_by_name(name))
+    };
+
+    object.retain(|name, value| {
+        !value.is_null()
+            || !find(name).is_some_and(|field| {
+                field.containing_oneof().is_some() && field.kind().as_message().is_none()
+            })
+    });
+
+    for (name, value) in object.iter_mut() {
+        let Some(field) = find(name) else { continue };
+        match (field.kind(), value) {
+            (Kind::Message(entry), serde_json::Value::Object(map)) if field.is_map() => {
+                if let Kind::Message(message) = entry.map_entry_value_field().kind() {
+                    for value in map.values_mut() {
+                        skip_nulls(&message, value);
+                    }
+                }
+            }
+            (Kind::Message(message), serde_json::Value::Array(list)) if field.is_list() => {
+                for value in list {
+                    skip_nulls(&message, value);
+                }
+            }
+            (Kind::Message(message), value) => skip_nulls(&message, value),
+            _ => {}
+        }
+    }
 }
 
 fn message_to_bytes(message: DynamicMessage) -> Result<Vec<u8>> {
-- 
2.43.0


From b3d33bef99c761b02cd4395ce197465a98b9f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:54 +0000
Subject: [PATCH 114/122] fix: floats in details of grpc errors are written
 like those in answers

---
 src/core/grpc/protobuf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/grpc/protobuf.rs b/src/core/grpc/protobuf.rs
index ca1a12a..3d94dfd 100644
--- a/src/core/grpc/protobuf.rs
+++ b/src/core/grpc/protobuf.rs
@@ -142,9 +142,10 @@ impl ProtobufMessage {
     pub fn decode(&self, bytes: &[u8]) -> Result<Value> {
         let message = DynamicMessage::decode(self.message_descriptor.clone(), bytes)?;
 
-        let json = serde_json::to_value(message)?;
+        // written as text, a float has as many digits as it takes to tell it
+        let json = serde_json::to_vec(&message)?;
 
-        Ok(async_graphql::Value::from_json(json)?)
+        Ok(serde_json::from_slice(&json)?)
     }
 }
 
-- 
2.43.0


From 271c2718e34561fbabc4984daa0b59e62db1a8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:09 +0000
Subject: [PATCH 115/122] fix: requests changed by scripts keep what the script
 left alone

---
 src/core/ir/eval_http.rs  | 11 +++++++-
 src/core/worker/worker.rs | 58 ++++++++++++++++++++++++++++++++++-----
 2 files changed, 61 insertions(+), 8 deletions(-)

diff --git a/src/core/ir/eval_http.rs b/src/core/ir/eval_http.rs
index fb162d9..5d217ae 100644
--- a/src/core/ir/eval_http.rs
+++ b/src/core/ir/eval_http.rs
@@ -115,7 +115,16 @@ impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context>
         let response = match js_hooks.on_request(worker, request.request()).await? {
             Some(command) => match command {
                 worker::Command::Request(w_request) => {
-                    let response = self.execute(w_request.try_into()?).await?;
+                    let (original, batching_value) = request.into_parts();
+                    let bytes = |request: &Request| {
+                        let body = request.body().and_then(|body| body.as_bytes());
+                        body.map(|body| body.to_vec())
+                    };
+                    let body = bytes(&original);
+                    let changed = w_request.restore(original)?;
+                    let batching_value = batching_value.filter(|_| bytes(&changed) == body);
+                    let request = DynamicRequest::new(changed).with_batching_value(batching_value);
+                    let response = self.execute(request).await?;
                     Ok(response)
                 }
                 worker::Command::Response(w_response) => {
diff --git a/src/core/worker/worker.rs b/src/core/worker/worker.rs
index 9b9ddd1..ee6fe2d 100644
--- a/src/core/worker/worker.rs
+++ b/src/core/worker/worker.rs
@@ -56,7 +56,10 @@ impl WorkerResponse {
     pub fn headers(&self) -> BTreeMap<String, String> {
         let mut headers = BTreeMap::new();
         for (key, value) in self.0.headers.iter() {
-            headers.insert(key.to_string(), value.to_str().unwrap().to_string());
+            headers.insert(
+                key.to_string(),
+                String::from_utf8_lossy(value.as_bytes()).to_string(),
+            );
         }
         headers
     }
@@ -131,11 +134,17 @@ impl Display for Uri {
         let query = self
             .query
             .iter()
-            .map(|(k, v)| format!("{}={}", k, v))
-            .collect::<Vec<String>>()
-            .join("&");
-
-        write!(f, "{}://{}{}{}", scheme, host, port, path)?;
+            .fold(
+                url::form_urlencoded::Serializer::new(String::new()),
+                |mut query, (k, v)| {
+                    query.append_pair(k, v);
+                    query
+                },
+            )
+            .finish();
+        let slash = if path.starts_with('/') { "" } else { "/" };
+
+        write!(f, "{}://{}{}{}{}", scheme, host, port, slash, path)?;
 
         if !query.is_empty() {
             write!(f, "?{}", query)?;
@@ -158,7 +167,13 @@ impl WorkerRequest {
         let headers = self.0.headers();
         let mut map = BTreeMap::new();
         for (k, v) in headers.iter() {
-            map.insert(k.to_string(), v.to_str()?.to_string());
+            let value = String::from_utf8_lossy(v.as_bytes());
+            map.entry(k.to_string())
+                .and_modify(|values: &mut String| {
+                    values.push_str(", ");
+                    values.push_str(&value);
+                })
+                .or_insert_with(|| value.to_string());
         }
         Ok(map)
     }
@@ -171,6 +186,35 @@ impl WorkerRequest {
             None
         }
     }
+
+    /// Scripts work with a simplified view of a request, it can't express e.g.
+    /// parameters and headers that are given several times or binary bodies.
+    /// Everything that is the same in the views of both requests is taken from
+    /// the original one.
+    pub fn restore(self, original: reqwest::Request) -> Result<reqwest::Request> {
+        let mut original = WorkerRequest(original);
+        let mut changed = self;
+
+        if changed.uri() == original.uri() {
+            *changed.0.url_mut() = original.0.url().clone();
+        }
+
+        let (before, after) = (original.headers()?, changed.headers()?);
+        for name in original.0.headers().keys() {
+            if before.get(name.as_str()) == after.get(name.as_str()) {
+                changed.0.headers_mut().remove(name);
+                for value in original.0.headers().get_all(name) {
+                    changed.0.headers_mut().append(name, value.clone());
+                }
+            }
+        }
+
+        if changed.body() == original.body() {
+            *changed.0.body_mut() = original.0.body_mut().take();
+        }
+
+        Ok(changed.0)
+    }
 }
 
 impl TryFrom<&reqwest::Request> for WorkerRequest {
-- 
2.43.0


From 684146f4debd998f161906e85c37ba0597a20cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:09 +0000
Subject: [PATCH 116/122] fix: exceptions in request hooks are errors, hooks
 may return nothing

---
 src/cli/javascript/runtime.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/cli/javascript/runtime.rs b/src/cli/javascript/runtime.rs
index a2e7670..48a390c 100644
--- a/src/cli/javascript/runtime.rs
+++ b/src/cli/javascript/runtime.rs
@@ -3,7 +3,7 @@ use std::fmt::{Debug, Formatter};
 use std::thread;
 
 use async_graphql_value::ConstValue;
-use rquickjs::{Context, Ctx, FromJs, Function, IntoJs, Value};
+use rquickjs::{CatchResultExt, Context, Ctx, FromJs, Function, IntoJs, Value};
 
 use crate::core::worker::{Command, Event};
 use crate::core::{blueprint, worker, WorkerIO};
@@ -171,10 +171,17 @@ fn call(name: String, event: Event) -> Result<Option<Command>, worker::Error> {
                     .map_err(|e| worker::Error::Rquickjs(e.to_string()))?,
             };
 
-            let command: Option<Value> = function.call(args).ok();
-            command
-                .map(|output| Command::from_js(&ctx, output))
-                .transpose()
+            let output: Value = function
+                .call(args)
+                .catch(&ctx)
+                .map_err(|e| worker::Error::Rquickjs(e.to_string()))?;
+
+            if output.is_undefined() || output.is_null() {
+                return Ok(None);
+            }
+
+            Command::from_js(&ctx, output)
+                .map(Some)
                 .map_err(|e| worker::Error::DeserializeFailed(e.to_string()))
         })
     })
@@ -194,6 +201,7 @@ fn execute_inner(name: String, value: String) -> Result<ConstValue, worker::Erro
                 .ok_or(worker::Error::InvalidFunction(name.clone()))?;
             let val: String = function
                 .call((value,))
+                .catch(&ctx)
                 .map_err(|e| worker::Error::FunctionValueParseError(e.to_string(), name))?;
             Ok::<_, worker::Error>(serde_json::from_str(&val)?)
         })
-- 
2.43.0


From 2cb15a4db38884c5f11b99b73d9ada907a79f392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:09 +0000
Subject: [PATCH 117/122] fix: redirects by scripts end, keep their query and
 are evaluated once

---
 src/core/ir/eval_http.rs | 59 +++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/src/core/ir/eval_http.rs b/src/core/ir/eval_http.rs
index 5d217ae..23a99c2 100644
--- a/src/core/ir/eval_http.rs
+++ b/src/core/ir/eval_http.rs
@@ -20,6 +20,9 @@ use crate::core::json::JsonLike;
 use crate::core::worker_hooks::WorkerHooks;
 use crate::core::{grpc, http, worker, WorkerIO};
 
+/// How many times in a row a script may redirect a request
+const MAX_REDIRECTS: usize = 10;
+
 pub struct WorkerContext<'a> {
     pub worker: &'a Arc<dyn WorkerIO<worker::Event, worker::Command>>,
     pub js_worker:
@@ -101,8 +104,7 @@ impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context>
         Ok(response)
     }
 
-    #[async_recursion::async_recursion]
-    pub async fn execute_with_worker<'worker: 'async_recursion>(
+    pub async fn execute_with_worker<'worker>(
         &self,
         mut request: DynamicRequest<String>,
         worker_ctx: WorkerContext<'worker>,
@@ -112,9 +114,11 @@ impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context>
         let worker = worker_ctx.worker;
         let js_worker = worker_ctx.js_worker;
 
-        let response = match js_hooks.on_request(worker, request.request()).await? {
-            Some(command) => match command {
-                worker::Command::Request(w_request) => {
+        let mut redirects = 0;
+
+        let response = loop {
+            match js_hooks.on_request(worker, request.request()).await? {
+                Some(worker::Command::Request(w_request)) => {
                     let (original, batching_value) = request.into_parts();
                     let bytes = |request: &Request| {
                         let body = request.body().and_then(|body| body.as_bytes());
@@ -124,33 +128,38 @@ impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context>
                     let changed = w_request.restore(original)?;
                     let batching_value = batching_value.filter(|_| bytes(&changed) == body);
                     let request = DynamicRequest::new(changed).with_batching_value(batching_value);
-                    let response = self.execute(request).await?;
-                    Ok(response)
+                    break self.execute(request).await?;
                 }
-                worker::Command::Response(w_response) => {
+                Some(worker::Command::Response(w_response)) => {
                     // Check if the response is a redirect
-                    if (w_response.status() == 301 || w_response.status() == 302)
-                        && w_response.headers().contains_key("location")
-                    {
-                        request
-                            .request_mut()
-                            .url_mut()
-                            .set_path(w_response.headers()["location"].as_str());
-                        self.execute_with_worker(request, worker_ctx).await
-                    } else {
-                        Ok(w_response.try_into()?)
+                    let is_redirect = w_response.status() == 301 || w_response.status() == 302;
+                    let Some(location) = w_response
+                        .headers()
+                        .remove("location")
+                        .filter(|_| is_redirect)
+                    else {
+                        break w_response.try_into()?;
+                    };
+
+                    redirects += 1;
+                    if redirects > MAX_REDIRECTS {
+                        return Err(Error::IO("Too many redirects".to_string()));
                     }
+
+                    let url = request.request_mut().url_mut();
+                    let mut target = url.join(&location).map_err(anyhow::Error::from)?;
+                    // a location that is only a path changes only the path
+                    if target.query().is_none() && target.origin() == url.origin() {
+                        target.set_query(url.query());
+                    }
+                    *url = target;
                 }
-            },
-            None => self.execute(request).await,
+                None => break self.execute(request).await?,
+            }
         };
 
         // send the final response to JS script for futher evaluation.
-        if let Ok(resp) = response {
-            js_hooks.on_response(js_worker, resp).await
-        } else {
-            response
-        }
+        js_hooks.on_response(js_worker, response).await
     }
 }
 
-- 
2.43.0


From 99d4c7762a9b348bf906045a2cda43488cb9f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:09 +0000
Subject: [PATCH 118/122] fix: responses of scripts may be empty and have
 headers

---
 src/core/ir/eval_http.rs  | 4 +++-
 src/core/worker/worker.rs | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/ir/eval_http.rs b/src/core/ir/eval_http.rs
index 23a99c2..00a26be 100644
--- a/src/core/ir/eval_http.rs
+++ b/src/core/ir/eval_http.rs
@@ -138,7 +138,9 @@ impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context>
                         .remove("location")
                         .filter(|_| is_redirect)
                     else {
-                        break w_response.try_into()?;
+                        let response = w_response.try_into()?;
+                        set_headers(self.evaluation_ctx, &response);
+                        break response;
                     };
 
                     redirects += 1;
diff --git a/src/core/worker/worker.rs b/src/core/worker/worker.rs
index ee6fe2d..fb9d714 100644
--- a/src/core/worker/worker.rs
+++ b/src/core/worker/worker.rs
@@ -88,8 +88,8 @@ impl TryFrom<WorkerResponse> for Response<async_graphql::Value> {
 
     fn try_from(res: WorkerResponse) -> Result<Self> {
         let body: async_graphql::Value = match res.body() {
-            Some(body) => serde_json::from_str(&body)?,
-            None => async_graphql::Value::Null,
+            Some(body) if !body.is_empty() => serde_json::from_str(&body)?,
+            _ => async_graphql::Value::Null,
         };
 
         Ok(Response { status: res.0.status, headers: res.0.headers, body })
-- 
2.43.0


From 05b50e20f5e92800e3aecbdbde29e428d60ae219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:31 +0000
Subject: [PATCH 119/122] fix: report N + 1 paths of recursive types for every
 field leading to them

---
 src/core/config/npo/tracker.rs | 52 ++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/core/config/npo/tracker.rs b/src/core/config/npo/tracker.rs
index 53d5537..8dee7db 100644
--- a/src/core/config/npo/tracker.rs
+++ b/src/core/config/npo/tracker.rs
@@ -123,8 +123,10 @@ impl Display for Name<'_> {
 pub struct PathTracker<'a> {
     config: &'a Config,
     // Caches resolved chunks for the specific type
-    // with is_list info since the result is different depending on this flag
-    cache: HashMap<(TypeName<'a>, bool), Chunk<Chunk<Name<'a>>>>,
+    // with is_list info since the result is different depending on this flag.
+    // The second value is the lowest depth of a type that was still being
+    // resolved and whose paths are therefore missing from the chunks, if any
+    cache: HashMap<(TypeName<'a>, bool), (Chunk<Chunk<Name<'a>>>, Option<usize>)>,
 }
 
 impl<'a> PathTracker<'a> {
@@ -137,14 +139,17 @@ impl<'a> PathTracker<'a> {
         parent_name: Option<Name<'a>>,
         type_name: TypeName<'a>,
         is_list: bool,
-    ) -> Chunk<Chunk<Name<'a>>> {
-        let chunks = if let Some(chunks) = self.cache.get(&(type_name, is_list)) {
-            chunks.clone()
+        depth: usize,
+    ) -> (Chunk<Chunk<Name<'a>>>, Option<usize>) {
+        let (chunks, incomplete) = if let Some(cached) = self.cache.get(&(type_name, is_list)) {
+            cached.clone()
         } else {
             // set empty value in the cache to prevent infinity recursion
-            self.cache.insert((type_name, is_list), Chunk::default());
+            self.cache
+                .insert((type_name, is_list), (Chunk::default(), Some(depth)));
 
             let mut chunks = Chunk::default();
+            let mut incomplete: Option<usize> = None;
             if let Some(type_of) = self.config.find_type(type_name.as_str()) {
                 for (name, field) in type_of.fields.iter() {
                     let field_name = Name::Field(FieldName::new(name));
@@ -153,35 +158,50 @@ impl<'a> PathTracker<'a> {
                         chunks = chunks.append(Chunk::new(field_name));
                     } else {
                         let is_list = is_list | field.type_of.is_list();
-                        chunks = chunks.concat(self.iter(
+                        let (field_chunks, field_incomplete) = self.iter(
                             Some(field_name),
                             TypeName::new(field.type_of.name()),
                             is_list,
-                        ))
+                            depth + 1,
+                        );
+                        chunks = chunks.concat(field_chunks);
+                        incomplete = incomplete.into_iter().chain(field_incomplete).min();
                     }
                 }
             }
 
-            self.cache.insert((type_name, is_list), chunks.clone());
+            if incomplete == Some(depth) {
+                // the only paths that are missing are the ones that go through this type
+                // again. Types on the cycle lack the paths through this type, therefore
+                // resolve them again when they are reached from somewhere else
+                self.cache
+                    .retain(|_, (_, incomplete)| incomplete.map_or(true, |at| at < depth));
+                incomplete = None;
+            }
 
-            chunks
+            self.cache
+                .insert((type_name, is_list), (chunks.clone(), incomplete));
+
+            (chunks, incomplete)
         };
 
         // chunks contains only paths from the current type.
         // Prepend every subpath with parent path
-        if let Some(path) = parent_name {
+        let chunks = if let Some(path) = parent_name {
             let vec = chunks.as_vec();
 
             Chunk::from_iter(vec.into_iter().map(|chunk| chunk.prepend(path)))
         } else {
             chunks
-        }
+        };
+
+        (chunks, incomplete)
     }
 
     fn find_chunks(&mut self) -> Chunk<Chunk<Name<'a>>> {
         let mut chunks = match &self.config.schema.query {
             None => Chunk::default(),
-            Some(query) => self.iter(None, TypeName::new(query.as_str()), false),
+            Some(query) => self.iter(None, TypeName::new(query.as_str()), false, 0).0,
         };
 
         for (type_name, type_of) in &self.config.types {
@@ -191,12 +211,14 @@ impl<'a> PathTracker<'a> {
                 // and therefore the resolver itself should be batched to avoid n + 1
                 if type_of.has_batched_resolver() {
                     // if batched resolver is present traverse inner fields
-                    chunks = chunks.concat(self.iter(
+                    let (entity_chunks, _) = self.iter(
                         Some(parent_path),
                         TypeName::new(type_name.as_str()),
                         // entities are basically returning list of data
                         true,
-                    ));
+                        0,
+                    );
+                    chunks = chunks.concat(entity_chunks);
                 } else {
                     chunks = chunks.append(Chunk::new(parent_path));
                 }
-- 
2.43.0


From 199714da51eaaa447000f98758d2a766ff6ee760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:37 +0000
Subject: [PATCH 120/122] fix: serve configured routes under the REST prefix

---
 src/core/http/request_handler.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 833047c..127353b 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -317,13 +317,20 @@ async fn handle_request_inner<T: DeserializeOwned + GraphQLRequestLike>(
     req_counter: &mut RequestCounter,
 ) -> Result<Response<Body>> {
     let path = req.uri().path();
-    if path == API_URL_PREFIX || path.starts_with(API_URL_SEGMENT) {
-        return handle_rest_apis(req, app_ctx, req_counter).await;
-    }
-
     let health_check_endpoint = app_ctx.blueprint.server.routes.status();
     let graphql_endpoint = app_ctx.blueprint.server.routes.graphql();
 
+    // routes of the config take precedence over REST endpoints
+    let is_configured_route = match *req.method() {
+        Method::POST => path == graphql_endpoint,
+        Method::GET => path == health_check_endpoint,
+        _ => false,
+    };
+    let is_rest_api = path == API_URL_PREFIX || path.starts_with(API_URL_SEGMENT);
+    if is_rest_api && !is_configured_route {
+        return handle_rest_apis(req, app_ctx, req_counter).await;
+    }
+
     match *req.method() {
         // NOTE:
         // The first check for the route should be for `/graphql`
-- 
2.43.0


From d0f87a20cc039d1b639e478261eef8cfc6f7af60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:45 +0000
Subject: [PATCH 121/122] fix: stop scripts that exceed their timeout

---
 src/cli/javascript/runtime.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/cli/javascript/runtime.rs b/src/cli/javascript/runtime.rs
index 48a390c..deafea1 100644
--- a/src/cli/javascript/runtime.rs
+++ b/src/cli/javascript/runtime.rs
@@ -1,6 +1,7 @@
-use std::cell::{OnceCell, RefCell};
+use std::cell::{Cell, OnceCell, RefCell};
 use std::fmt::{Debug, Formatter};
 use std::thread;
+use std::time::{Duration, Instant};
 
 use async_graphql_value::ConstValue;
 use rquickjs::{CatchResultExt, Context, Ctx, FromJs, Function, IntoJs, Value};
@@ -13,6 +14,12 @@ struct LocalRuntime(Context);
 thread_local! {
     // Practically only one JS runtime is created for every Runtime because tokio_runtime is single threaded.
   static LOCAL_RUNTIME: RefCell<OnceCell<LocalRuntime>> = const { RefCell::new(OnceCell::new()) };
+  // The time by which the script running on this thread has to end.
+  static DEADLINE: Cell<Option<Instant>> = const { Cell::new(None) };
+}
+
+fn start_timer(timeout: Option<Duration>) {
+    DEADLINE.set(timeout.and_then(|timeout| Instant::now().checked_add(timeout)));
 }
 
 #[rquickjs::function]
@@ -39,6 +46,11 @@ impl TryFrom<blueprint::Script> for LocalRuntime {
     fn try_from(script: blueprint::Script) -> Result<Self, Self::Error> {
         let source = script.source;
         let js_runtime = rquickjs::Runtime::new()?;
+        js_runtime.set_interrupt_handler(Some(Box::new(|| {
+            DEADLINE
+                .get()
+                .is_some_and(|deadline| Instant::now() >= deadline)
+        })));
         let context = Context::full(&js_runtime)?;
         let _: () = context.with(|ctx| {
             setup_builtins(&ctx)?;
@@ -92,7 +104,10 @@ impl WorkerIO<Event, Command> for Runtime {
         if let Some(runtime) = &self.tokio_runtime {
             runtime
                 .spawn(async move {
+                    let timeout = script.timeout;
+                    start_timer(timeout);
                     init_rt(script)?;
+                    start_timer(timeout);
                     call(name, event)
                 })
                 .await?
@@ -115,7 +130,10 @@ impl WorkerIO<ConstValue, ConstValue> for Runtime {
         if let Some(runtime) = &self.tokio_runtime {
             runtime
                 .spawn(async move {
+                    let timeout = script.timeout;
+                    start_timer(timeout);
                     init_rt(script)?;
+                    start_timer(timeout);
                     execute_inner(name, value).map(Some)
                 })
                 .await?
-- 
2.43.0


From 0f39cc81adc01f3a2cc2bbd254c7c1b3a4843fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:29 +0000
Subject: [PATCH 122/122] fix: REST operations of one document may use
 different fragments

---
 src/core/rest/endpoint.rs | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/core/rest/endpoint.rs b/src/core/rest/endpoint.rs
index a408f73..22757bc 100644
--- a/src/core/rest/endpoint.rs
+++ b/src/core/rest/endpoint.rs
@@ -1,6 +1,8 @@
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, HashMap};
 
-use async_graphql::parser::types::{Directive, DocumentOperations, ExecutableDocument};
+use async_graphql::parser::types::{
+    Directive, DocumentOperations, ExecutableDocument, FragmentDefinition, Selection, SelectionSet,
+};
 use async_graphql::{Positioned, Variables};
 use async_graphql_value::{ConstValue, Name};
 use derive_setters::Setters;
@@ -78,7 +80,7 @@ impl Endpoint {
                     body: rest.body,
                     doc: ExecutableDocument {
                         operations: DocumentOperations::Single(op.clone()),
-                        fragments: doc.fragments.clone(),
+                        fragments: used_fragments(&op.node.selection_set.node, &doc.fragments),
                     },
                 };
                 endpoints.push(endpoint);
@@ -174,6 +176,37 @@ impl Endpoint {
     }
 }
 
+/// The fragments that a selection set leads to, the others belong to other
+/// operations of the document
+fn used_fragments(
+    selection_set: &SelectionSet,
+    fragments: &HashMap<Name, Positioned<FragmentDefinition>>,
+) -> HashMap<Name, Positioned<FragmentDefinition>> {
+    let mut used = HashMap::new();
+    let mut pending = vec![selection_set];
+
+    while let Some(selection_set) = pending.pop() {
+        for selection in &selection_set.items {
+            match &selection.node {
+                Selection::Field(field) => pending.push(&field.node.selection_set.node),
+                Selection::InlineFragment(fragment) => {
+                    pending.push(&fragment.node.selection_set.node)
+                }
+                Selection::FragmentSpread(spread) => {
+                    let name = &spread.node.fragment_name.node;
+                    if let Some(fragment) = fragments.get(name) {
+                        if used.insert(name.clone(), fragment.clone()).is_none() {
+                            pending.push(&fragment.node.selection_set.node);
+                        }
+                    }
+                }
+            }
+        }
+    }
+
+    used
+}
+
 fn merge_variables(a: Variables, b: Variables) -> Variables {
     let mut variables = Variables::default();
 
-- 
2.43.0

