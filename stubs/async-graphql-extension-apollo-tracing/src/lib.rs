//! Stand-in (the real build script downloads a .proto). Does nothing.
use std::sync::Arc;
use async_graphql::extensions::{Extension, ExtensionFactory};
pub struct ApolloTracing;
impl ApolloTracing { pub fn new(_: String, _: String, _: String, _: String, _: String) -> Self { Self } }
struct Ext;
#[async_graphql::async_trait::async_trait]
impl Extension for Ext {}
impl ExtensionFactory for ApolloTracing { fn create(&self) -> Arc<dyn Extension> { Arc::new(Ext) } }
