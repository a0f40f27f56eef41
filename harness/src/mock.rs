//! Stand-ins for the gateway's surroundings that record everything they are asked, and a driver for
//! the real gateway (configuration text -> running server -> HTTP request -> HTTP response).
use std::borrow::Cow;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use hyper::body::Bytes;
use serde_json::{json, Value};
use tailcall::core::app_context::AppContext;
use tailcall::core::async_graphql_hyper::{GraphQLBatchRequest, GraphQLRequest};
use tailcall::core::blueprint::Blueprint;
use tailcall::core::cache::InMemoryCache;
use tailcall::core::config::{Config, ConfigModule};
use tailcall::core::http::{handle_request, Response};
use tailcall::core::rest::EndpointSet;
use tailcall::core::runtime::TargetRuntime;
use tailcall::core::{EnvIO, FileIO, HttpIO};
use tailcall_valid::Validator;

#[derive(Clone, Debug)]
pub struct UReq {
    pub method: String,
    pub url: url::Url,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub at: tokio::time::Instant,
}

impl UReq {
    pub fn path(&self) -> &str {
        self.url.path()
    }
    pub fn query(&self) -> Vec<(String, String)> {
        self.url.query_pairs().map(|(a, b)| (a.to_string(), b.to_string())).collect()
    }
    pub fn q(&self, k: &str) -> Option<String> {
        self.query().into_iter().find(|x| x.0 == k).map(|x| x.1)
    }
    pub fn qs(&self, k: &str) -> Vec<String> {
        self.query().into_iter().filter(|x| x.0 == k).map(|x| x.1).collect()
    }
    pub fn header(&self, k: &str) -> Option<&str> {
        self.headers.iter().find(|h| h.0.eq_ignore_ascii_case(k)).map(|h| h.1.as_str())
    }
    pub fn body_str(&self) -> String {
        String::from_utf8_lossy(&self.body).into_owned()
    }
    pub fn body_json(&self) -> Value {
        serde_json::from_slice(&self.body).unwrap_or(Value::Null)
    }
    pub fn show(&self) -> Value {
        json!({"method": self.method, "url": self.url.as_str(), "headers": self.headers, "body": self.body_str()})
    }
}

#[derive(Clone, Debug)]
pub struct URes {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub delay: Duration,
    /// transport failure
    pub fail: Option<String>,
}

impl URes {
    pub fn json(v: Value) -> Self {
        URes { status: 200, headers: vec![], body: v.to_string().into_bytes(), delay: Duration::ZERO, fail: None }
    }
    pub fn bytes(b: impl Into<Vec<u8>>) -> Self {
        URes { status: 200, headers: vec![], body: b.into(), delay: Duration::ZERO, fail: None }
    }
    pub fn status(s: u16) -> Self {
        URes { status: s, headers: vec![], body: vec![], delay: Duration::ZERO, fail: None }
    }
    pub fn fail(s: &str) -> Self {
        URes { status: 0, headers: vec![], body: vec![], delay: Duration::ZERO, fail: Some(s.into()) }
    }
    pub fn header(mut self, k: &str, v: &str) -> Self {
        self.headers.push((k.into(), v.into()));
        self
    }
    pub fn with_status(mut self, s: u16) -> Self {
        self.status = s;
        self
    }
    pub fn delay_ms(mut self, ms: u64) -> Self {
        self.delay = Duration::from_millis(ms);
        self
    }
}

type Handler = Box<dyn Fn(&UReq) -> URes + Send + Sync>;

pub struct Upstream {
    pub handler: Handler,
    pub log: Mutex<Vec<UReq>>,
}

impl Upstream {
    pub fn new(f: impl Fn(&UReq) -> URes + Send + Sync + 'static) -> Arc<Self> {
        Arc::new(Upstream { handler: Box::new(f), log: Default::default() })
    }
    pub fn take(&self) -> Vec<UReq> {
        std::mem::take(&mut *self.log.lock().unwrap())
    }
    pub fn seen(&self) -> usize {
        self.log.lock().unwrap().len()
    }
}

#[async_trait::async_trait]
impl HttpIO for Upstream {
    async fn execute(&self, request: reqwest::Request) -> anyhow::Result<Response<Bytes>> {
        let u = UReq {
            method: request.method().to_string(),
            url: request.url().clone(),
            headers: request
                .headers()
                .iter()
                .map(|(k, v)| (k.as_str().to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned()))
                .collect(),
            body: request.body().and_then(|b| b.as_bytes()).map(|b| b.to_vec()).unwrap_or_default(),
            at: tokio::time::Instant::now(),
        };
        let res = (self.handler)(&u);
        self.log.lock().unwrap().push(u.clone());
        if !res.delay.is_zero() {
            tokio::time::sleep(res.delay).await;
        }
        if let Some(f) = res.fail {
            return Err(anyhow::anyhow!(f));
        }
        let status = reqwest::StatusCode::from_u16(res.status)?;
        // like the native client, which turns 4xx/5xx into an error
        if status.is_client_error() || status.is_server_error() {
            return Err(anyhow::anyhow!("{}", status));
        }
        let mut headers = http::HeaderMap::new();
        for (k, v) in &res.headers {
            headers.append(
                http::header::HeaderName::from_bytes(k.as_bytes())?,
                http::header::HeaderValue::from_bytes(v.as_bytes())?,
            );
        }
        Ok(Response { status, headers, body: Bytes::from(res.body) })
    }
}

pub struct Env(pub HashMap<String, String>);
impl EnvIO for Env {
    fn get(&self, key: &str) -> Option<Cow<'_, str>> {
        self.0.get(key).map(Cow::from)
    }
}

#[derive(Default)]
pub struct Files(pub Mutex<HashMap<String, String>>);
#[async_trait::async_trait]
impl FileIO for Files {
    async fn write<'a>(&'a self, path: &'a str, content: &'a [u8]) -> anyhow::Result<()> {
        self.0.lock().unwrap().insert(path.into(), String::from_utf8(content.to_vec())?);
        Ok(())
    }
    async fn read<'a>(&'a self, path: &'a str) -> anyhow::Result<String> {
        self.0
            .lock()
            .unwrap()
            .get(path)
            .cloned()
            .ok_or_else(|| anyhow::anyhow!("no such file: {path}"))
    }
}

pub fn runtime(up: Arc<Upstream>) -> TargetRuntime {
    runtime_env(up, &[])
}

pub fn runtime_env(up: Arc<Upstream>, env: &[(&str, &str)]) -> TargetRuntime {
    TargetRuntime {
        http: up.clone(),
        http2_only: up,
        env: Arc::new(Env(env.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect())),
        file: Arc::new(Files::default()),
        cache: Arc::new(InMemoryCache::default()),
        extensions: Arc::new(vec![]),
        cmd_worker: None,
        worker: None,
    }
}

/// Configuration errors as (path, message) pairs, in the order reported.
pub type CfgErrors = Vec<(Vec<String>, String)>;

pub fn parse(sdl: &str) -> Result<Config, CfgErrors> {
    Config::from_sdl(sdl)
        .to_result()
        .map_err(|e| e.as_vec().iter().map(|c| (c.trace.iter().map(|s| s.to_string()).collect(), c.message.to_string())).collect())
}

pub fn module(sdl: &str) -> Result<ConfigModule, CfgErrors> {
    Ok(ConfigModule::from(parse(sdl)?))
}

pub fn blueprint(m: &ConfigModule) -> Result<Blueprint, CfgErrors> {
    Blueprint::try_from(m)
        .map_err(|e| e.as_vec().iter().map(|c| (c.trace.iter().map(|s| s.to_string()).collect(), c.message.to_string())).collect())
}

pub fn app(sdl: &str, rt: TargetRuntime) -> Result<Arc<AppContext>, String> {
    let m = module(sdl).map_err(|e| format!("{e:?}"))?;
    app_of(&m, rt)
}

pub fn app_of(m: &ConfigModule, rt: TargetRuntime) -> Result<Arc<AppContext>, String> {
    let bp = blueprint(m).map_err(|e| format!("{e:?}"))?;
    Ok(Arc::new(AppContext::new(bp, rt, EndpointSet::default())))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Res {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl Res {
    pub fn json(&self) -> Value {
        serde_json::from_slice(&self.body).unwrap_or(Value::Null)
    }
    pub fn data(&self) -> Value {
        self.json().get("data").cloned().unwrap_or(Value::Null)
    }
    pub fn errors(&self) -> Vec<Value> {
        self.json().get("errors").and_then(|e| e.as_array().cloned()).unwrap_or_default()
    }
    pub fn header(&self, k: &str) -> Option<&str> {
        self.headers.iter().find(|h| h.0 == k).map(|h| h.1.as_str())
    }
    pub fn all(&self, k: &str) -> Vec<&str> {
        self.headers.iter().filter(|h| h.0 == k).map(|h| h.1.as_str()).collect()
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.body).into_owned()
    }
}

pub async fn send_raw(app: &Arc<AppContext>, req: http::Request<hyper::Body>) -> Result<Res, String> {
    let r = if app.blueprint.server.enable_batch_requests {
        handle_request::<GraphQLBatchRequest>(req, app.clone()).await
    } else {
        handle_request::<GraphQLRequest>(req, app.clone()).await
    };
    let r = r.map_err(|e| format!("{e:#}"))?;
    let (parts, body) = r.into_parts();
    let body = hyper::body::to_bytes(body).await.map_err(|e| e.to_string())?.to_vec();
    Ok(Res {
        status: parts.status.as_u16(),
        headers: parts
            .headers
            .iter()
            .map(|(k, v)| (k.as_str().to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned()))
            .collect(),
        body,
    })
}

pub async fn send(
    app: &Arc<AppContext>,
    method: &str,
    uri: &str,
    headers: &[(&str, &str)],
    body: impl Into<Vec<u8>>,
) -> Result<Res, String> {
    let mut b = http::Request::builder().method(method).uri(uri);
    for (k, v) in headers {
        b = b.header(*k, *v);
    }
    let req = b.body(hyper::Body::from(body.into())).map_err(|e| format!("harness request: {e}"))?;
    send_raw(app, req).await
}

pub async fn gql(app: &Arc<AppContext>, body: Value, headers: &[(&str, &str)]) -> Res {
    let mut hs = vec![("content-type", "application/json")];
    hs.extend_from_slice(headers);
    match send(app, "POST", "/graphql", &hs, body.to_string()).await {
        Ok(r) => r,
        Err(e) => Res { status: 599, headers: vec![], body: json!({"transport": e}).to_string().into_bytes() },
    }
}

pub async fn query(app: &Arc<AppContext>, q: &str) -> Res {
    gql(app, json!({"query": q}), &[]).await
}

/// A real HTTP server on the loopback that records every request it receives.
pub struct Wire {
    pub port: u16,
    pub up: Arc<Upstream>,
    stop: Option<tokio::sync::oneshot::Sender<()>>,
}

impl Wire {
    /// Must be called inside a tokio runtime.
    pub fn start(up: Arc<Upstream>) -> Wire {
        use hyper::service::{make_service_fn, service_fn};
        let (tx, rx) = tokio::sync::oneshot::channel::<()>();
        let u2 = up.clone();
        let mk = make_service_fn(move |_| {
            let up = u2.clone();
            async move {
                Ok::<_, std::convert::Infallible>(service_fn(move |req: hyper::Request<hyper::Body>| {
                    let up = up.clone();
                    async move {
                        let (p, body) = req.into_parts();
                        let body = hyper::body::to_bytes(body).await.map(|b| b.to_vec()).unwrap_or_default();
                        let host = p.headers.get("host").map(|h| String::from_utf8_lossy(h.as_bytes()).into_owned()).unwrap_or("none".into());
                        let full = if p.uri.scheme().is_some() { p.uri.to_string() } else { format!("http://{host}{}", p.uri) };
                        let u = UReq {
                            method: p.method.to_string(),
                            url: url::Url::parse(&full).unwrap_or_else(|_| url::Url::parse("http://bad/").unwrap()),
                            headers: p.headers.iter().map(|(k, v)| (k.as_str().to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect(),
                            body,
                            at: tokio::time::Instant::now(),
                        };
                        let res = (up.handler)(&u);
                        up.log.lock().unwrap().push(u);
                        if !res.delay.is_zero() {
                            tokio::time::sleep(res.delay).await;
                        }
                        if res.fail.is_some() {
                            return Err(anyhow::anyhow!("dropped"));
                        }
                        let mut b = hyper::Response::builder().status(res.status);
                        for (k, v) in &res.headers {
                            b = b.header(k.as_str(), hyper::header::HeaderValue::from_bytes(v.as_bytes()).unwrap());
                        }
                        Ok(b.body(hyper::Body::from(res.body))?)
                    }
                }))
            }
        });
        let server = hyper::Server::bind(&([127, 0, 0, 1], 0).into()).serve(mk);
        let port = server.local_addr().port();
        tokio::spawn(server.with_graceful_shutdown(async {
            rx.await.ok();
        }));
        Wire { port, up, stop: Some(tx) }
    }
    pub fn url(&self, p: &str) -> String {
        format!("http://127.0.0.1:{}{}", self.port, p)
    }
}

/// A template context made of plain JSON: {args: .., value: .., headers: .., env: .., vars: ..}.
pub struct TCtx {
    pub value: Value,
    pub headers: http::HeaderMap,
    pub selection: Option<String>,
}
impl TCtx {
    pub fn new(value: Value) -> Self {
        TCtx { value, headers: Default::default(), selection: None }
    }
}
impl tailcall::core::path::PathValue for TCtx {
    fn raw_value<'a, T: AsRef<str>>(&'a self, path: &[T]) -> Option<tailcall::core::path::ValueString<'a>> {
        use tailcall::core::json::JsonLike;
        self.value
            .get_path(path)
            .map(|a| tailcall::core::path::ValueString::Value(Cow::Owned(async_graphql::Value::from_json(a.clone()).unwrap())))
    }
}
impl tailcall::core::path::PathString for TCtx {
    fn path_string<'a, T: AsRef<str>>(&'a self, parts: &'a [T]) -> Option<Cow<'a, str>> {
        self.value.path_string(parts)
    }
}
impl tailcall::core::has_headers::HasHeaders for TCtx {
    fn headers(&self) -> &http::HeaderMap {
        &self.headers
    }
}
impl tailcall::core::path::PathGraphql for TCtx {
    fn path_graphql<T: AsRef<str>>(&self, path: &[T]) -> Option<String> {
        use tailcall::core::json::JsonLike;
        self.value.get_path(path).map(|v| async_graphql::Value::from_json(v.clone()).unwrap().to_string())
    }
}
impl tailcall::core::ir::GraphQLOperationContext for TCtx {
    fn directives(&self) -> Option<String> {
        None
    }
    fn selection_set(&self, _: &tailcall::core::ir::RelatedFields) -> Option<String> {
        self.selection.clone()
    }
}
