//! Stand-in for tower-lsp: a server that reads JSON-RPC messages, in order, and gives them to the methods of a language
//! server, as tower-lsp does: at most four at once, each polled first in the order of arrival; answers go out as they come.
//! Answers of the client to the server's own requests go right to who waits for them.
pub mod jsonrpc;
pub mod lsp_types;

pub use attrs::async_trait;

use futures::future::BoxFuture;
use futures::stream::FuturesUnordered;
use futures::{FutureExt, StreamExt};
use lsp_types::notification::Notification;
use lsp_types::request::Request;
use lsp_types::*;
use serde::de::DeserializeOwned;
use serde_json::{Value, json};
use std::collections::{HashMap, VecDeque};
use std::fmt::Display;
use std::future::Future;
use std::sync::{Arc, Mutex};
use tokio::io::{AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use tokio::sync::{mpsc, oneshot};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum State {
    Uninitialized,
    Initializing,
    Initialized,
    ShutDown,
}

#[derive(Debug)]
struct Shared {
    state: State,
    next: i64,
    waiting: HashMap<i64, oneshot::Sender<jsonrpc::Result<Value>>>,
}

/// What a server can ask and tell its client.
#[derive(Clone, Debug)]
pub struct Client {
    out: mpsc::UnboundedSender<Value>,
    shared: Arc<Mutex<Shared>>,
}

impl Client {
    fn ready(&self) -> bool {
        matches!(self.shared.lock().unwrap().state, State::Initialized | State::ShutDown)
    }
    fn unchecked<N: Notification>(&self, params: N::Params) {
        let _ = self.out.send(json!({"jsonrpc": "2.0", "method": N::METHOD, "params": params}));
    }
    pub async fn send_notification<N: Notification>(&self, params: N::Params) {
        if self.ready() {
            self.unchecked::<N>(params);
        }
    }
    pub async fn send_request<R: Request>(&self, params: R::Params) -> jsonrpc::Result<R::Result> {
        if !self.ready() {
            return Err(jsonrpc::Error {
                code: jsonrpc::ErrorCode::ServerError(-32002),
                message: "Server not initialized".into(),
                data: None,
            });
        }
        let (tx, rx) = oneshot::channel();
        let id = {
            let mut shared = self.shared.lock().unwrap();
            shared.next += 1;
            let id = shared.next;
            shared.waiting.insert(id, tx);
            id
        };
        let _ = self.out.send(json!({"jsonrpc": "2.0", "method": R::METHOD, "params": params, "id": id}));
        let value = rx.await.map_err(|_| jsonrpc::Error::internal_error())??;
        serde_json::from_value(value).map_err(|err| jsonrpc::Error {
            code: jsonrpc::ErrorCode::ParseError,
            message: err.to_string().into(),
            data: None,
        })
    }
    pub async fn configuration(&self, items: Vec<ConfigurationItem>) -> jsonrpc::Result<Vec<Value>> {
        self.send_request::<request::WorkspaceConfiguration>(ConfigurationParams { items }).await
    }
    pub async fn workspace_folders(&self) -> jsonrpc::Result<Option<Vec<WorkspaceFolder>>> {
        self.send_request::<request::WorkspaceFoldersRequest>(()).await
    }
    pub async fn register_capability(&self, registrations: Vec<Registration>) -> jsonrpc::Result<()> {
        self.send_request::<request::RegisterCapability>(RegistrationParams { registrations }).await
    }
    pub async fn log_message<M: Display>(&self, typ: MessageType, message: M) {
        self.unchecked::<notification::LogMessage>(LogMessageParams { typ, message: message.to_string() });
    }
    pub async fn show_message<M: Display>(&self, typ: MessageType, message: M) {
        self.unchecked::<notification::ShowMessage>(ShowMessageParams { typ, message: message.to_string() });
    }
    pub async fn publish_diagnostics(&self, uri: Url, diagnostics: Vec<Diagnostic>, version: Option<i32>) {
        self.send_notification::<notification::PublishDiagnostics>(PublishDiagnosticsParams { uri, diagnostics, version }).await;
    }
}

macro_rules! server {
    ($(request $r:ident($rp:ty) -> $rt:ty = $rm:expr;)* $(notification $n:ident($np:ty) = $nm:expr;)*) => {
        /// What a server does with each message.
        pub trait LanguageServer: Send + Sync + 'static {
            fn initialize(&self, params: InitializeParams) -> impl Future<Output = jsonrpc::Result<InitializeResult>> + Send;
            fn shutdown(&self) -> impl Future<Output = jsonrpc::Result<()>> + Send;
            $(fn $r(&self, _params: $rp) -> impl Future<Output = jsonrpc::Result<$rt>> + Send {
                async { Err(jsonrpc::Error::method_not_found()) }
            })*
            $(fn $n(&self, _params: $np) -> impl Future<Output = ()> + Send {
                async {}
            })*
        }
        async fn call<S: LanguageServer>(server: &S, method: &str, params: Value) -> Option<jsonrpc::Result<Value>> {
            Some(match method {
                "initialize" => match parse(params) { Ok(p) => answer(server.initialize(p).await), Err(e) => Err(e) },
                "shutdown" => answer(server.shutdown().await),
                $($rm => match parse(params) { Ok(p) => answer(server.$r(p).await), Err(e) => Err(e) },)*
                $($nm => { if let Ok(p) = parse(params) { server.$n(p).await; } return None; })*
                _ => Err(jsonrpc::Error::method_not_found()),
            })
        }
    };
}
server! {
    request formatting(DocumentFormattingParams) -> Option<Vec<TextEdit>> = "textDocument/formatting";
    request range_formatting(DocumentRangeFormattingParams) -> Option<Vec<TextEdit>> = "textDocument/rangeFormatting";
    request on_type_formatting(DocumentOnTypeFormattingParams) -> Option<Vec<TextEdit>> = "textDocument/onTypeFormatting";
    request will_save_wait_until(WillSaveTextDocumentParams) -> Option<Vec<TextEdit>> = "textDocument/willSaveWaitUntil";
    notification initialized(InitializedParams) = "initialized";
    notification did_open(DidOpenTextDocumentParams) = "textDocument/didOpen";
    notification did_change(DidChangeTextDocumentParams) = "textDocument/didChange";
    notification will_save(WillSaveTextDocumentParams) = "textDocument/willSave";
    notification did_save(DidSaveTextDocumentParams) = "textDocument/didSave";
    notification did_close(DidCloseTextDocumentParams) = "textDocument/didClose";
    notification did_change_workspace_folders(DidChangeWorkspaceFoldersParams) = "workspace/didChangeWorkspaceFolders";
    notification did_change_configuration(DidChangeConfigurationParams) = "workspace/didChangeConfiguration";
    notification did_change_watched_files(DidChangeWatchedFilesParams) = "workspace/didChangeWatchedFiles";
}

fn parse<P: DeserializeOwned>(params: Value) -> jsonrpc::Result<P> {
    serde_json::from_value(params).map_err(|err| jsonrpc::Error::invalid_params(err.to_string()))
}
fn answer<T: serde::Serialize>(result: jsonrpc::Result<T>) -> jsonrpc::Result<Value> {
    result.map(|it| serde_json::to_value(it).unwrap())
}

type Custom<S> = Arc<dyn Fn(Arc<S>, Value) -> BoxFuture<'static, Option<jsonrpc::Result<Value>>> + Send + Sync>;

/// A method beyond the protocol's.
pub trait Method<S, P, R>: Clone + Send + Sync + 'static {
    fn invoke(self, server: Arc<S>, params: Value) -> BoxFuture<'static, Option<jsonrpc::Result<Value>>>;
}
/// An async method of a server, that borrows it.
pub trait Borrowing<'a, S: 'a, P, T>: Clone + Send + Sync + 'static {
    type Out: Future<Output = jsonrpc::Result<T>> + Send + 'a;
    fn run(self, server: &'a S, params: P) -> Self::Out;
}
impl<'a, S: 'a, P, T, F, Fut> Borrowing<'a, S, P, T> for F
where
    F: Fn(&'a S, P) -> Fut + Clone + Send + Sync + 'static,
    Fut: Future<Output = jsonrpc::Result<T>> + Send + 'a,
{
    type Out = Fut;
    fn run(self, server: &'a S, params: P) -> Fut {
        self(server, params)
    }
}
impl<S, P, T, F> Method<S, P, T> for F
where
    S: Send + Sync + 'static,
    P: DeserializeOwned + Send + 'static,
    T: serde::Serialize + 'static,
    F: for<'a> Borrowing<'a, S, P, T>,
{
    fn invoke(self, server: Arc<S>, params: Value) -> BoxFuture<'static, Option<jsonrpc::Result<Value>>> {
        async move {
            Some(match parse::<P>(params) {
                Ok(p) => answer(self.run(&server, p).await),
                Err(e) => Err(e),
            })
        }
        .boxed()
    }
}

pub struct LspService<S> {
    server: Arc<S>,
    client: Client,
    custom: HashMap<&'static str, Custom<S>>,
}
impl<S> std::fmt::Debug for LspService<S> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("LspService")
    }
}
pub struct LspServiceBuilder<S> {
    service: LspService<S>,
    socket: ClientSocket,
}
#[derive(Debug)]
pub struct ClientSocket {
    out: mpsc::UnboundedReceiver<Value>,
}

impl<S: LanguageServer> LspService<S> {
    pub fn new<F: FnOnce(Client) -> S>(init: F) -> (Self, ClientSocket) {
        Self::build(init).finish()
    }
    pub fn build<F: FnOnce(Client) -> S>(init: F) -> LspServiceBuilder<S> {
        let (tx, rx) = mpsc::unbounded_channel();
        let shared = Shared { state: State::Uninitialized, next: 0, waiting: HashMap::new() };
        let client = Client { out: tx, shared: Arc::new(Mutex::new(shared)) };
        let server = Arc::new(init(client.clone()));
        LspServiceBuilder { service: LspService { server, client, custom: HashMap::new() }, socket: ClientSocket { out: rx } }
    }
    pub fn inner(&self) -> &S {
        &self.server
    }
}
impl<S: LanguageServer> LspServiceBuilder<S> {
    pub fn custom_method<P, T, F: Method<S, P, T>>(mut self, name: &'static str, method: F) -> Self {
        self.service.custom.insert(name, Arc::new(move |server, params| method.clone().invoke(server, params)));
        self
    }
    pub fn finish(self) -> (LspService<S>, ClientSocket) {
        (self.service, self.socket)
    }
}

pub struct Server<I, O> {
    read: I,
    write: O,
    socket: ClientSocket,
    limit: usize,
}
impl<I: AsyncRead + Unpin, O: AsyncWrite> Server<I, O> {
    pub fn new(read: I, write: O, socket: ClientSocket) -> Self {
        Server { read, write, socket, limit: 4 }
    }
    pub fn concurrency_level(mut self, max: usize) -> Self {
        self.limit = max;
        self
    }
    pub async fn serve<S: LanguageServer>(self, service: LspService<S>) {
        let Server { read, write, mut socket, limit } = self;
        let mut read = tokio::io::BufReader::new(read);
        let mut write = std::pin::pin!(write);
        let shared = service.client.shared.clone();
        let (tx, mut messages) = mpsc::unbounded_channel::<Value>();
        let reader = async move {
            while let Some(message) = receive(&mut read).await {
                let exit = message["method"] == "exit";
                let _ = tx.send(message);
                if exit {
                    break;
                }
            }
        };
        let mut reader = std::pin::pin!(reader.fuse());
        let mut reading = true;
        let mut queue: VecDeque<Value> = VecDeque::new();
        let mut running: FuturesUnordered<BoxFuture<'static, Option<(jsonrpc::Id, jsonrpc::Result<Value>)>>> =
            FuturesUnordered::new();
        let mut exiting = false;
        loop {
            while running.len() < limit && !exiting {
                let Some(message) = queue.pop_front() else { break };
                if message["method"] == "exit" {
                    exiting = true;
                    break;
                }
                let mut future = serve_one(&service, message);
                // first polled in the order of arrival
                match futures::poll!(&mut future) {
                    std::task::Poll::Ready(done) => running.push(async move { done }.boxed()),
                    std::task::Poll::Pending => running.push(future),
                }
            }
            if (exiting || (!reading && queue.is_empty())) && running.is_empty() {
                break;
            }
            let more = exiting && running.is_empty();
            if more {
                break;
            }
            tokio::select! {
                biased;
                Some(message) = messages.recv() => {
                    if message.get("method").is_none() {
                        let id = message["id"].as_i64().unwrap_or(-1);
                        if let Some(tx) = shared.lock().unwrap().waiting.remove(&id) {
                            let _ = tx.send(match message.get("error") {
                                Some(e) => Err(serde_json::from_value(e.clone()).unwrap_or_else(|_| jsonrpc::Error::internal_error())),
                                None => Ok(message["result"].clone()),
                            });
                        }
                    } else {
                        queue.push_back(message);
                    }
                }
                _ = &mut reader, if reading => reading = false,
                Some(message) = socket.out.recv() => send(&mut write, message).await,
                Some(done) = running.next(), if !running.is_empty() => if let Some((id, result)) = done {
                    send(&mut write, serde_json::to_value(jsonrpc::Response::from_parts(id, result)).unwrap()).await;
                },
            }
        }
        while let Ok(message) = socket.out.try_recv() {
            send(&mut write, message).await;
        }
    }
}

fn serve_one<S: LanguageServer>(
    service: &LspService<S>, message: Value,
) -> BoxFuture<'static, Option<(jsonrpc::Id, jsonrpc::Result<Value>)>> {
    let server = service.server.clone();
    let shared = service.client.shared.clone();
    let method = message["method"].as_str().unwrap_or("").to_string();
    let id: Option<jsonrpc::Id> = message.get("id").map(|id| serde_json::from_value(id.clone()).unwrap_or_default());
    let params = message.get("params").cloned().unwrap_or(Value::Null);
    let custom = service.custom.get(method.as_str()).cloned();
    async move {
        let state = shared.lock().unwrap().state;
        let refused = match (method.as_str(), state) {
            ("initialize", State::Uninitialized) => {
                shared.lock().unwrap().state = State::Initializing;
                None
            }
            ("initialize", _) | (_, State::ShutDown) => Some(jsonrpc::Error::invalid_request()),
            (_, State::Initialized) => None,
            _ => Some(jsonrpc::Error {
                code: jsonrpc::ErrorCode::ServerError(-32002),
                message: "Server not initialized".into(),
                data: None,
            }),
        };
        if let Some(error) = refused {
            return id.map(|id| (id, Err(error)));
        }
        if method == "shutdown" {
            shared.lock().unwrap().state = State::ShutDown;
        }
        let result = match custom {
            Some(custom) => custom(server, params).await,
            None => call(&*server, &method, params).await,
        };
        if method == "initialize" {
            let ok = matches!(result, Some(Ok(_)));
            shared.lock().unwrap().state = if ok { State::Initialized } else { State::Uninitialized };
        }
        Some((id?, result?))
    }
    .boxed()
}

async fn receive<I: AsyncRead + Unpin>(read: &mut tokio::io::BufReader<I>) -> Option<Value> {
    let mut length = None;
    loop {
        let mut line = String::new();
        if read.read_line(&mut line).await.ok()? == 0 {
            return None;
        }
        match line.trim_end() {
            "" => break,
            header => {
                if let Some((k, v)) = header.split_once(':')
                    && k.eq_ignore_ascii_case("content-length")
                {
                    length = v.trim().parse::<usize>().ok();
                }
            }
        }
    }
    let mut body = vec![0; length?];
    read.read_exact(&mut body).await.ok()?;
    serde_json::from_slice(&body).ok()
}
async fn send<O: AsyncWrite>(write: &mut std::pin::Pin<&mut O>, message: Value) {
    let body = message.to_string();
    let _ = write.write_all(format!("Content-Length: {}\r\n\r\n{body}", body.len()).as_bytes()).await;
    let _ = write.flush().await;
}
