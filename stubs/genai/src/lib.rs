//! Stand-in for the LLM client (not available offline). No request is ever made.
#[derive(Debug)]
pub enum Error { Unavailable }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("unavailable") } }
impl std::error::Error for Error {}
pub mod adapter {
    #[derive(Clone, Copy, Debug)]
    pub enum AdapterKind { Ollama }
    impl AdapterKind { pub fn from_model(_: &str) -> Result<Self, crate::Error> { Ok(Self::Ollama) } }
    #[derive(Clone, Default, Debug)]
    pub struct AdapterConfig;
    impl AdapterConfig { pub fn with_auth_resolver(self, _: crate::resolver::AuthResolver) -> Self { self } }
}
pub mod resolver {
    #[derive(Clone, Debug)]
    pub struct AuthResolver;
    impl AuthResolver { pub fn from_key_value(_: String) -> Self { AuthResolver } }
}
pub mod chat {
    #[derive(Clone, Debug, Default)]
    pub struct ChatOptions;
    impl ChatOptions { pub fn with_json_mode(self, _: bool) -> Self { self } pub fn with_temperature(self, _: f64) -> Self { self } }
    #[derive(Clone, Debug)]
    pub struct ChatMessage(pub String);
    impl ChatMessage { pub fn system(s: impl Into<String>) -> Self { Self(s.into()) } pub fn user(s: impl Into<String>) -> Self { Self(s.into()) } }
    #[derive(Clone, Debug, Default)]
    pub struct ChatRequest { pub messages: Vec<ChatMessage> }
    impl ChatRequest { pub fn new(messages: Vec<ChatMessage>) -> Self { Self { messages } } }
    #[derive(Clone, Debug)]
    pub enum MessageContent { Text(String) }
    impl MessageContent { pub fn text_as_str(&self) -> Option<&str> { match self { Self::Text(s) => Some(s) } } }
    #[derive(Clone, Debug, Default)]
    pub struct ChatResponse { pub content: Option<MessageContent> }
}
#[derive(Clone, Debug)]
pub struct Client;
#[derive(Clone, Debug)]
pub struct ClientBuilder;
impl Client {
    pub fn builder() -> ClientBuilder { ClientBuilder }
    pub async fn exec_chat(&self, _: &str, _: chat::ChatRequest, _: Option<&chat::ChatOptions>) -> Result<chat::ChatResponse, Error> { Err(Error::Unavailable) }
}
impl ClientBuilder {
    pub fn with_chat_options(self, _: chat::ChatOptions) -> Self { self }
    pub fn insert_adapter_config(self, _: adapter::AdapterKind, _: adapter::AdapterConfig) -> Self { self }
    pub fn build(self) -> Client { Client }
}
