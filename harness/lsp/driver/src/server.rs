//! A server, its client, and the disk.
use crate::docs::{place, pos_json, pos_of, position};
use crate::range::{Gen, List, selection};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::time::Duration;
use tokio::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt, BufReader, DuplexStream, ReadHalf, WriteHalf};
use vfcommon::{Rng, Value, at, codes, emit, from_codes, json};

/// The configurations there are: text, broken, leaves the default exclusions on, excludes skip.R, CRLF, and what the client
/// is told of it.
pub const TOMLS: &[(&str, bool, bool, bool, bool, (&str, u32, u32))] = &[
    ("[format]\nindent-width = 4\n", false, true, false, false, ("space", 4, 80)),
    ("[format]\nindent-width = 8\nline-width = 30\n", false, true, false, false, ("space", 8, 30)),
    ("[format\n", true, true, false, false, ("space", 2, 80)),
    ("[format]\nindent-width = 3\nexclude = [\"skip.R\"]\n", false, true, true, false, ("space", 3, 80)),
    ("[format]\nindent-width = 5\ndefault-exclude = false\n", false, false, false, false, ("space", 5, 80)),
    ("[format]\nindent-width = 6\nline-ending = \"crlf\"\n", false, true, false, true, ("space", 6, 80)),
    ("[format]\nindent-style = \"tab\"\nline-ending = \"lf\"\n", false, true, false, false, ("tab", 2, 80)),
    ("[format]\nindent-width = 99\n", true, true, false, false, ("space", 2, 80)),
    ("", false, true, false, false, ("space", 2, 80)),
];
pub fn tomls() -> Value {
    TOMLS
        .iter()
        .map(|(_, broken, defaults, skips, crlf, (style, indent, line))| {
            json!({"broken": broken, "defaults": defaults, "skips": skips, "crlf": crlf,
                   "format": {"indent_style": style, "indent_width": indent, "line_width": line}})
        })
        .collect()
}

/// The documents there are: scheme, path below the root (or the URL), excluded by default, named skip.R.
pub const URIS: &[(&str, &[&str], &str, bool, bool)] = &[
    ("file", &["p", "x.R"], "", false, false),
    ("file", &["p", "s", "y.R"], "", false, false),
    ("file", &["q r", "z.R"], "", false, false),
    ("file", &["p", "skip.R"], "", false, true),
    ("file", &["p", "s", "cpp11.R"], "", true, false),
    ("untitled", &[], "untitled:Untitled-1", false, false),
    ("vscode-notebook-cell", &[], "vscode-notebook-cell:/p/n.qmd#c1", false, false),
    ("test", &[], "test://doc", false, false),
    ("file", &["o", "x.R"], "", false, false),
    ("file", &["p", "renv", "activate.R"], "", true, false),
    ("file", &["p2", "x.R"], "", false, false),
    ("file", &["p", "notes.Rmd"], "", false, false),
];
pub fn uris() -> Value {
    URIS.iter()
        .map(|(scheme, path, _, default, skipped)| json!({"scheme": scheme, "path": path, "default": default, "skipped": skipped}))
        .collect()
}

pub struct World {
    pub root: PathBuf,
}
impl World {
    pub fn new() -> Self {
        let root = PathBuf::from(format!("/tmp/vf-lspd-{}", std::process::id()));
        std::fs::create_dir_all(&root).unwrap();
        let w = World { root };
        w.clear();
        w
    }
    pub fn dirs() -> Vec<Vec<&'static str>> {
        vec![vec![], vec!["p"], vec!["p", "s"], vec!["q r"], vec!["p2"]]
    }
    fn path(&self, parts: &[String]) -> PathBuf {
        parts.iter().fold(self.root.clone(), |p, part| p.join(part))
    }
    /// No configuration anywhere.
    pub fn clear(&self) {
        for d in Self::dirs() {
            let dir = d.iter().fold(self.root.clone(), |p, part| p.join(part));
            std::fs::create_dir_all(&dir).unwrap();
            for name in ["air.toml", ".air.toml"] {
                let _ = std::fs::remove_file(dir.join(name));
            }
        }
    }
    pub fn url(&self, k: usize) -> String {
        let (scheme, path, url, _, _) = URIS[k - 1];
        if scheme == "file" {
            let parts: Vec<String> = path.iter().map(|s| s.to_string()).collect();
            url::Url::from_file_path(self.path(&parts)).unwrap().to_string()
        } else {
            url.to_string()
        }
    }
    fn dir_url(&self, dir: &Value) -> String {
        url::Url::from_file_path(self.path(&strings(dir))).unwrap().to_string()
    }
}
impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}
fn strings(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect()
}

/// What the formatter makes of a text with a configuration, line feeds only; nothing if it does not parse.
pub fn formatted(text: &str, toml: &str) -> Option<String> {
    let options = workspace::toml::parse_air_inline_toml(toml).unwrap();
    let options = options.into_settings(Path::new("")).unwrap().format.to_format_options(text);
    match workspace::format::format_source(text, options) {
        Ok(workspace::format::FormattedSource::Changed(new)) => Some(new.replace("\r\n", "\n")),
        Ok(workspace::format::FormattedSource::Unchanged) => Some(text.to_string()),
        Err(_) => None,
    }
}

/// The configuration that stands for the indentation of a request.
fn request(spaces: bool, tab: u64) -> String {
    let width = if (1..=24).contains(&tab) { tab } else { 2 };
    let style = if spaces { "space" } else { "tab" };
    format!("[format]\nindent-width = {width}\nindent-style = \"{style}\"\n")
}

pub struct Client<'w> {
    world: &'w World,
    read: BufReader<ReadHalf<DuplexStream>>,
    write: WriteHalf<DuplexStream>,
    next: i64,
    /// answers by id
    answers: HashMap<i64, Value>,
    pulls: Vec<Value>,
    syncs: Vec<Value>,
    other: Vec<String>,
    /// what was logged: type and text
    pub logs: Vec<(i64, String)>,
    pub registered: Vec<Value>,
    pub reply: Value,
    register_fails: bool,
    pub dead: bool,
    texts: BTreeMap<usize, Vec<char>>,
    /// the last edits, if the document has not changed since
    offered: Option<(usize, Vec<Value>)>,
    pub enc: &'static str,
}

impl<'w> Client<'w> {
    pub fn new(world: &'w World, io: DuplexStream, register_fails: bool) -> Self {
        let (read, write) = tokio::io::split(io);
        Client {
            world,
            read: BufReader::new(read),
            write,
            next: 0,
            answers: HashMap::new(),
            pulls: vec![],
            syncs: vec![],
            other: vec![],
            logs: vec![],
            registered: vec![],
            reply: json!({"mode": "ok", "sync": "false"}),
            register_fails,
            dead: false,
            texts: BTreeMap::new(),
            offered: None,
            enc: "utf16",
        }
    }
    async fn send(&mut self, message: Value) {
        let body = message.to_string();
        let frame = format!("Content-Length: {}\r\n\r\n{body}", body.len());
        if self.write.write_all(frame.as_bytes()).await.is_err() {
            self.dead = true;
        }
    }
    pub async fn notify(&mut self, method: &str, params: Value) {
        self.send(json!({"jsonrpc": "2.0", "method": method, "params": params})).await;
    }
    pub async fn request(&mut self, method: &str, params: Value) -> i64 {
        self.next += 1;
        let id = self.next;
        let mut message = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if !params.is_null() {
            message["params"] = params;
        }
        self.send(message).await;
        id
    }
    async fn receive(&mut self) -> Option<Value> {
        let mut length = 0;
        loop {
            let mut line = String::new();
            if self.read.read_line(&mut line).await.ok()? == 0 {
                return None;
            }
            let line = line.trim_end();
            if line.is_empty() {
                break;
            }
            if let Some(n) = line.strip_prefix("Content-Length: ") {
                length = n.parse().ok()?;
            }
        }
        let mut body = vec![0; length];
        self.read.read_exact(&mut body).await.ok()?;
        serde_json::from_slice(&body).ok()
    }
    /// Deals with one message of the server.
    pub async fn one(&mut self) {
        let Ok(Some(message)) = tokio::time::timeout(Duration::from_secs(10), self.receive()).await else {
            self.dead = true;
            return;
        };
        let method = message["method"].as_str().unwrap_or("").to_string();
        match (method.as_str(), message.get("id").cloned()) {
            ("", Some(id)) => {
                self.answers.insert(id.as_i64().unwrap_or(-1), message);
            }
            ("workspace/configuration", Some(id)) => {
                let items = message["params"]["items"].as_array().cloned().unwrap_or_default();
                let mut values: Vec<Value> = items
                    .iter()
                    .map(|item| match item["section"].as_str().unwrap_or("") {
                        "air.syncFileSettingsWithClient" => match self.reply["sync"].as_str() {
                            Some("true") => json!(true),
                            Some("false") => json!(false),
                            _ => Value::Null,
                        },
                        "air.logLevel" => self.reply["level"].clone(),
                        "air.dependencyLogLevels" => self.reply["deps"].clone(),
                        "editor.insertSpaces" => json!(false),
                        "editor.indentSize" => json!("tabSize"),
                        "editor.tabSize" => json!(7),
                        _ => Value::Null,
                    })
                    .collect();
                self.pulls.push(json!({"items": items.iter().map(|item| {
                    json!({"uri": self.number(item["scopeUri"].as_str().unwrap_or("")),
                           "section": item["section"].as_str().unwrap_or("")})
                }).collect::<Vec<_>>()}));
                match self.reply["mode"].as_str().unwrap() {
                    "ok" => self.send(json!({"jsonrpc": "2.0", "id": id, "result": values})).await,
                    "short" => {
                        values.pop();
                        self.send(json!({"jsonrpc": "2.0", "id": id, "result": values})).await
                    }
                    _ => {
                        let error = json!({"code": -32603, "message": "no"});
                        self.send(json!({"jsonrpc": "2.0", "id": id, "error": error})).await
                    }
                }
            }
            ("client/registerCapability", Some(id)) => {
                self.registered.extend(message["params"]["registrations"].as_array().cloned().unwrap_or_default());
                if self.register_fails {
                    let error = json!({"code": -32603, "message": "no"});
                    self.send(json!({"jsonrpc": "2.0", "id": id, "error": error})).await
                } else {
                    self.send(json!({"jsonrpc": "2.0", "id": id, "result": null})).await
                }
            }
            ("air/syncFileSettings", None) => {
                let files = message["params"]["file_settings"].as_array().cloned().unwrap_or_default();
                let files: Vec<Value> = files
                    .iter()
                    .map(|f| {
                        let g = &f["format"];
                        let n = |k: &str| g[k].as_i64().unwrap_or(-1);
                        json!({"url": self.number(f["url"].as_str().unwrap_or("")),
                               "toml": {"indent_style": g["indent_style"].as_str().unwrap_or("?").to_lowercase(),
                                        "indent_width": n("indent_width"), "line_width": n("line_width")}})
                    })
                    .collect();
                self.syncs.push(Value::Array(files));
            }
            ("window/logMessage", None) => {
                let text = message["params"]["message"].as_str().unwrap_or("").to_string();
                self.logs.push((message["params"]["type"].as_i64().unwrap_or(0), text));
            }
            _ => self.other.push(method),
        }
    }
    /// Which document a URL is of: 0 for none.
    fn number(&self, url: &str) -> usize {
        (1..=URIS.len()).find(|k| self.world.url(*k) == url).unwrap_or(0)
    }
    pub async fn answer(&mut self, id: i64) -> Value {
        loop {
            if let Some(v) = self.answers.remove(&id) {
                return v;
            }
            if self.dead {
                return json!({"dead": true});
            }
            self.one().await;
        }
    }
    /// Waits until everything that was sent has been dealt with.
    pub async fn fence(&mut self) {
        let params = json!({"textDocument": {"uri": "fence:none"}, "position": {"line": 0, "character": 0}, "kind": "SyntaxTree"});
        let id = self.request("air/viewFile", params).await;
        self.answer(id).await;
    }

    /// Sends one event; the id of the request, if it is one, and what the formatter makes of the text at that point.
    async fn event(&mut self, e: &mut Value) -> Option<i64> {
        let op = e["op"].as_str().unwrap().to_string();
        let k = e["uri"].as_u64().unwrap_or(0) as usize;
        let url = if k > 0 { self.world.url(k) } else { String::new() };
        match op.as_str() {
            "disk" => {
                let dir = self.world.path(&strings(&e["dir"]));
                let file = dir.join(if e["hidden"].as_bool().unwrap() { ".air.toml" } else { "air.toml" });
                match e["toml"].as_u64().unwrap() as usize {
                    0 => drop(std::fs::remove_file(file)),
                    n => std::fs::write(file, TOMLS[n - 1].0).unwrap(),
                }
                None
            }
            "folders" => {
                let mut added: Vec<Value> = vec![];
                for d in e["added"].as_array().unwrap() {
                    added.push(json!({"uri": self.world.dir_url(d), "name": "w"}));
                }
                if e["odd"].as_bool().unwrap_or(false) {
                    added.push(json!({"uri": "virtual://somewhere/w", "name": "v"}));
                }
                let removed: Vec<Value> =
                    e["removed"].as_array().unwrap().iter().map(|d| json!({"uri": self.world.dir_url(d), "name": "w"})).collect();
                self.notify("workspace/didChangeWorkspaceFolders", json!({"event": {"added": added, "removed": removed}})).await;
                None
            }
            "watched" => {
                let changes: Vec<Value> = e["paths"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|p| json!({"uri": self.world.dir_url(p), "type": 2}))
                    .collect();
                self.notify("workspace/didChangeWatchedFiles", json!({"changes": changes})).await;
                None
            }
            "open" => {
                let text = from_codes(&e["text"]);
                self.texts.insert(k, text.chars().collect());
                let doc = json!({"uri": url, "languageId": "r", "version": 1, "text": text});
                self.notify("textDocument/didOpen", json!({"textDocument": doc})).await;
                None
            }
            "change" => {
                let changes: Vec<Value> = e["changes"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| {
                        let mut v = json!({"text": from_codes(&c["text"])});
                        if !c["full"].as_bool().unwrap() {
                            v["range"] = json!({"start": c["start"], "end": c["end"]});
                        }
                        v
                    })
                    .collect();
                if let Some(text) = self.texts.get_mut(&k) {
                    for c in e["changes"].as_array().unwrap() {
                        let new: Vec<char> = from_codes(&c["text"]).chars().collect();
                        if c["full"].as_bool().unwrap() {
                            *text = new;
                        } else {
                            let (i, j) = (offset(text, self.enc, &c["start"]), offset(text, self.enc, &c["end"]));
                            text.splice(i..j, new);
                        }
                    }
                }
                let params = json!({"textDocument": {"uri": url, "version": 2}, "contentChanges": changes});
                self.notify("textDocument/didChange", params).await;
                None
            }
            "close" => {
                self.texts.remove(&k);
                self.notify("textDocument/didClose", json!({"textDocument": {"uri": url}})).await;
                None
            }
            "save" => {
                self.notify("textDocument/didSave", json!({"textDocument": {"uri": url}})).await;
                None
            }
            "config" => {
                self.notify("workspace/didChangeConfiguration", json!({"settings": null})).await;
                None
            }
            "format" | "range" => {
                let spaces = e["spaces"].as_bool().unwrap();
                let tab = e["tab"].as_u64().unwrap();
                let mut outs = vec![];
                let mut broken = true;
                if let Some(text) = self.texts.get(&k) {
                    let text: String = text.iter().collect::<String>().replace("\r\n", "\n");
                    let request = request(spaces, tab);
                    if op == "format" {
                        let each = TOMLS.iter().enumerate().filter(|(_, t)| !t.1).map(|(i, t)| (i + 1, t.0));
                        for (i, toml) in each.chain([(0, request.as_str())]) {
                            if let Some(new) = formatted(&text, toml) {
                                broken = false;
                                outs.push(json!({"key": i, "text": codes(&new)}));
                            }
                        }
                    }
                }
                if op == "format" {
                    e["outs"] = Value::Array(outs);
                    e["broken"] = json!(broken);
                }
                let mut params = json!({"textDocument": {"uri": url}, "options": {"tabSize": tab, "insertSpaces": spaces}});
                Some(if op == "format" {
                    self.request("textDocument/formatting", params).await
                } else {
                    params["range"] = json!({"start": e["start"], "end": e["end"]});
                    self.request("textDocument/rangeFormatting", params).await
                })
            }
            "view" => {
                let params = json!({"textDocument": {"uri": url}, "position": {"line": 0, "character": 0}, "kind": e["kind"]});
                Some(self.request("air/viewFile", params).await)
            }
            "unknown" => Some(self.request("textDocument/hover", json!({"textDocument": {"uri": url}})).await),
            other => panic!("unknown event {other}"),
        }
    }

    /// Sends the events of a burst without waiting in between. A disk event is only ever the first.
    pub async fn burst(&mut self, mut burst: Value) -> Value {
        at(&burst.to_string());
        self.reply = burst["reply"].clone();
        let events = burst["events"].as_array_mut().unwrap();
        let mut ids = vec![];
        for e in events.iter_mut() {
            ids.push(self.event(e).await);
        }
        let mut outs = vec![];
        self.offered = None;
        for (n, id) in ids.into_iter().enumerate() {
            outs.push(match id {
                None => json!({"kind": "none"}),
                Some(id) => {
                    let answer = self.answer(id).await;
                    let result = &answer["result"];
                    if answer.get("dead").is_some() {
                        json!({"kind": "dead"})
                    } else if let Some(edits) = result.as_array() {
                        let edits: Vec<Value> = edits
                            .iter()
                            .map(|e| {
                                json!({"start": e["range"]["start"], "end": e["range"]["end"],
                                       "text": codes(e["newText"].as_str().unwrap())})
                            })
                            .collect();
                        if n + 1 == events.len() && !edits.is_empty() {
                            self.offered = Some((events[n]["uri"].as_u64().unwrap() as usize, edits.clone()));
                        }
                        json!({"kind": "edits", "edits": edits})
                    } else if answer.get("error").is_some() {
                        json!({"kind": "error"})
                    } else if let Some(text) = result.as_str() {
                        json!({"kind": "text", "text": text.len()})
                    } else {
                        json!({"kind": "null"})
                    }
                }
            });
        }
        self.fence().await;
        burst["outs"] = Value::Array(outs);
        burst["pulls"] = Value::Array(std::mem::take(&mut self.pulls));
        burst["syncs"] = Value::Array(std::mem::take(&mut self.syncs));
        burst["other"] = json!(std::mem::take(&mut self.other));
        burst["stray"] = json!(self.answers.drain().count());
        burst["alive"] = json!(!self.dead);
        burst
    }
}

/// The start of a conversation: `init` is what the client sends, as the specification knows it.
pub async fn begin(client: &mut Client<'_>, init: &Value) -> Value {
    let mut params = json!({"processId": null, "rootUri": null, "capabilities": {}});
    if let Some(encodings) = init["encodings"].as_array()
        && !encodings.is_empty()
    {
        params["capabilities"]["general"] = json!({"positionEncodings": encodings});
    } else if init["general"].as_bool().unwrap() {
        params["capabilities"]["general"] = json!({});
    }
    if init["workspace"].as_bool().unwrap() {
        let mut w = json!({});
        for (key, name) in [("regconf", "didChangeConfiguration"), ("regwatch", "didChangeWatchedFiles")] {
            match init[key].as_i64().unwrap() {
                0 => {}
                1 => w[name] = json!({}),
                2 => w[name] = json!({"dynamicRegistration": false}),
                _ => w[name] = json!({"dynamicRegistration": true}),
            }
        }
        match init["configuration"].as_i64().unwrap() {
            0 => {}
            1 => w["configuration"] = json!(false),
            _ => w["configuration"] = json!(true),
        }
        params["capabilities"]["workspace"] = w;
    }
    let folders: Vec<Value> = init["folders"]
        .as_array()
        .unwrap()
        .iter()
        .map(|d| json!({"uri": client.world.dir_url(d), "name": "w"}))
        .collect();
    params["workspaceFolders"] = if folders.is_empty() { Value::Null } else { Value::Array(folders) };
    if let Some(name) = init.get("client") {
        params["clientInfo"] = json!({"name": name, "version": "1"});
    }
    match init["options"].as_i64().unwrap() {
        9 => params["initializationOptions"] = init["given"].clone(),
        0 => {}
        1 => params["initializationOptions"] = json!({"logLevel": "error", "dependencyLogLevels": null}),
        2 => params["initializationOptions"] = json!({"logLevel": 3, "dependencyLogLevels": [1]}),
        _ => params["initializationOptions"] = json!("nonsense"),
    }
    let id = client.request("initialize", params).await;
    let result = client.answer(id).await["result"].clone();
    client.notify("initialized", json!({})).await;
    client.fence().await;
    let c = &result["capabilities"];
    let mut sections = vec![];
    let mut watched = vec![];
    let mut odd = 0;
    let mut ids = std::collections::BTreeSet::new();
    for r in &client.registered {
        ids.insert(r["id"].to_string());
        match r["method"].as_str().unwrap_or("") {
            "workspace/didChangeConfiguration" => sections.push(r["registerOptions"]["section"].clone()),
            "workspace/didChangeWatchedFiles" => {
                for w in r["registerOptions"]["watchers"].as_array().cloned().unwrap_or_default() {
                    watched.push(w["globPattern"].clone());
                    odd += w.get("kind").is_some_and(|k| !k.is_null() && k != 7) as usize;
                }
            }
            _ => odd += 1,
        }
    }
    let enc = c["positionEncoding"].as_str().unwrap_or("none").to_string();
    client.enc = if enc == "utf-8" { "utf8" } else { "utf16" };
    json!({"encoding": enc, "sync": c["textDocumentSync"].as_i64().or(c["textDocumentSync"]["change"].as_i64()).unwrap_or(-1),
           "folders": c["workspace"]["workspaceFolders"]["supported"] == true
               && c["workspace"]["workspaceFolders"]["changeNotifications"] == true,
           "formatting": c["documentFormattingProvider"] == true, "range": c["documentRangeFormattingProvider"] == true,
           "name": result["serverInfo"]["name"].as_str().unwrap_or(""),
           "sections": sections, "watched": watched, "odd": odd,
           "ids": ids.len() == client.registered.len(), "alive": !client.dead})
}

/// The end of it: whether shutting down is answered and leaving ends the server.
pub async fn end(client: &mut Client<'_>, server: tokio::task::JoinHandle<()>) -> Value {
    let id = client.request("shutdown", Value::Null).await;
    let answer = client.answer(id).await;
    let answered = answer.get("result").is_some_and(Value::is_null) && answer.get("error").is_none();
    client.notify("exit", Value::Null).await;
    let over = tokio::time::timeout(Duration::from_secs(10), server).await.is_ok_and(|r| r.is_ok());
    json!({"answered": answered, "over": over})
}

/// A conversation. Bursts are asked for one after the other, given the client's texts.
pub fn converse(world: &World, init: Value, mut next: impl FnMut(&Client<'_>) -> Option<Value>) -> Value {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let (a, b) = tokio::io::duplex(1 << 20);
        let server = tokio::spawn(async move {
            let (read, write) = tokio::io::split(b);
            lsp::start_lsp(read, write).await
        });
        let mut client = Client::new(world, a, init["fails"].as_bool().unwrap());
        let started = begin(&mut client, &init).await;
        let mut bursts = vec![];
        while let Some(burst) = next(&client) {
            let done = client.burst(burst).await;
            let alive = done["alive"].as_bool().unwrap();
            bursts.push(done);
            if !alive {
                break;
            }
        }
        let ended = end(&mut client, server).await;
        json!({"init": init, "started": started, "bursts": bursts, "ended": ended})
    })
}

const LINES: &[&str] = &[
    "{1}", "x=1", "1+1", "1 + 1", "f(a,b)", "list(\n1)", "if(a){\nb\n}", "# é", "\"𐐀\"+é", "function(x){x}", "f(aaaaaaaaaaaa,bbbbbbbbbbbbb)",
    "x <- 2", "{\n  1\n}", "g(function(y) {\n1\n})", "", "中<-1", "\"a\nb\"", "x|>f()",
];
const BROKEN: &[&str] = &["(", "f(", "1 +", ")", "{", "\"a"];

fn source(rng: &mut Rng, plain: bool) -> String {
    let crlf = if plain { 0 } else { *rng.pick(&[0, 0, 1, 1, 2]) };
    let mut lines: Vec<&str> = vec![];
    for _ in 0..rng.range(if plain { 1 } else { 0 }, 4) {
        lines.push(*rng.pick(LINES));
    }
    if plain {
        lines.insert(0, "{1}");
    }
    if !plain && rng.chance(1, 12) {
        lines.push(*rng.pick(BROKEN));
    }
    let mut text = lines.join("\n");
    if rng.chance(2, 3) {
        text.push('\n');
    }
    if !plain && rng.chance(1, 5) {
        // formatted already
        if let Some(new) = formatted(&text, "") {
            text = new;
        }
    }
    match crlf {
        1 => text.replace('\n', "\r\n"),
        2 => {
            let mut out = String::new();
            for c in text.chars() {
                if c == '\n' && rng.chance(1, 2) {
                    out.push('\r');
                }
                out.push(c);
            }
            out
        }
        _ => text,
    }
}

/// The offset of a position, which is not between a carriage return and a line feed.
fn offset(text: &[char], enc: &str, pos: &Value) -> usize {
    let pos = pos_of(pos);
    (0..=text.len())
        .find(|k| position(text, enc, *k) == (pos.line, pos.character))
        .unwrap_or_else(|| panic!("no such position: {pos:?}"))
}

/// A change of a document, and its text after that.
fn change(rng: &mut Rng, text: &mut Vec<char>, enc: &str) -> Value {
    if rng.chance(1, 6) {
        let new = source(rng, false);
        *text = new.chars().collect();
        return json!({"full": true, "text": codes(&new)});
    }
    let (i, j) = (place(rng, text), place(rng, text));
    let (i, j) = (i.min(j), i.max(j).min(i.min(j) + 4));
    let j = if j > 0 && j < text.len() && text[j - 1] == '\r' && text[j] == '\n' { j + 1 } else { j };
    let new = if rng.chance(1, 3) { String::new() } else { rng.pick(&["x", " ", "\n", "é", "𐐀", "1\n", "y\r\n", "()"]).to_string() };
    let v = json!({"full": false, "start": pos_json(position(text, enc, i)), "end": pos_json(position(text, enc, j)), "text": codes(&new)});
    text.splice(i..j, new.chars());
    v
}

const FOLDERS: &[&[&str]] = &[&["p"], &["p"], &["p", "s"], &["p", "s"], &["q r"], &["p2"]];
const PLACES: &[&[&str]] = &[&[], &["p"], &["p"], &["p", "s"], &["p", "s"], &["q r"], &["p2"]];
const ENCODINGS: &[&[&str]] =
    &[&[], &["utf-16"], &["utf-8"], &["utf-32", "utf-8"], &["utf-32"], &["utf-16", "utf-8"], &["utf-8", "utf-16"]];
fn some_dir(rng: &mut Rng) -> Value {
    json!(*rng.pick(FOLDERS))
}

pub fn init(rng: &mut Rng, profile: &str) -> Value {
    let hand = profile == "start";
    let encodings: &[&str] = if hand || profile == "text" || profile == "range" {
        *rng.pick(ENCODINGS)
    } else if rng.chance(1, 2) {
        &["utf-8"]
    } else {
        &[]
    };
    let mut folders = vec![];
    for _ in 0..rng.below(3) {
        let d = some_dir(rng);
        if !folders.contains(&d) {
            folders.push(d);
        }
    }
    let n = |rng: &mut Rng, k| rng.below(k) as i64;
    json!({"encodings": encodings, "general": rng.chance(1, 2), "workspace": !hand || rng.chance(4, 5),
           "regconf": n(rng, 4), "regwatch": n(rng, 4), "configuration": if hand { n(rng, 3) } else { (rng.chance(6, 7) as i64) * 2 },
           "folders": folders, "options": if hand { n(rng, 4) } else { 0 }, "fails": hand && rng.chance(1, 5)})
}

/// Chooses what happens next.
struct Chooser<'a> {
    /// configurations on the disk
    there: Vec<usize>,
    /// programs that were opened
    programs: BTreeMap<usize, (Vec<char>, List)>,
    rng: &'a mut Rng,
    profile: &'a str,
    left: usize,
    queue: Vec<Value>,
}
impl Chooser<'_> {
    fn doc(&mut self) -> usize {
        match self.profile {
            "text" => *self.rng.pick(&[1, 1, 6, 7, 8]),
            "settings" | "sync" => *self.rng.pick(&[1, 1, 2, 2, 3, 4, 5, 6, 6, 9, 10, 11, 12]),
            _ => 1 + self.rng.below(URIS.len()),
        }
    }
    fn format(&mut self, k: usize) -> Value {
        let spaces = self.rng.chance(1, 2);
        let tab = *self.rng.pick(&[1, 2, 4, 7, 24, 0, 25, 300]);
        json!({"op": "format", "uri": k, "spaces": spaces, "tab": tab})
    }
    fn open(&mut self, k: usize) -> Value {
        let plain = self.profile == "settings" || self.profile == "sync";
        json!({"op": "open", "uri": k, "text": codes(&source(self.rng, plain))})
    }
    fn open_program(&mut self, k: usize) -> Value {
        let (text, list) = Gen::program(self.rng);
        let lf: String = text.iter().collect();
        let e = json!({"op": "open", "uri": k, "text": codes(&if self.rng.chance(1, 3) { lf.replace('\n', "\r\n") } else { lf }),
                       "program": list.json()});
        self.programs.insert(k, (text, list));
        e
    }
    fn range(&mut self, k: usize, enc: &str) -> Value {
        let spaces = self.rng.chance(1, 2);
        // nothing gets so wide that it would be broken
        let tab = *self.rng.pick(if spaces { &[1, 2, 3, 4, 0, 25] } else { &[1, 2, 1, 2, 0, 25] });
        let Some((text, list)) = self.programs.get(&k) else {
            let zero = pos_json((0, 0));
            return json!({"op": "range", "uri": k, "spaces": spaces, "tab": tab, "start": zero, "end": zero, "a": 0, "b": 0, "outs": []});
        };
        let (a, b) = selection(self.rng, text, list);
        let mut lists = vec![];
        list.all(&mut lists);
        let mut outs = vec![];
        for l in lists {
            for i in 0..l.items.len() {
                for j in i..l.items.len() {
                    // statements that could be what is selected
                    if l.items[i].full.1 < a || l.items[i].full.0 > b || l.items[j].trim.0 > b || l.items[j].full.1 < a {
                        continue;
                    }
                    let slice: String = text[l.items[i].outer.0..l.items[j].outer.1].iter().collect();
                    for key in self.there.iter().copied().chain([0]) {
                        let toml = if key == 0 { request(spaces, tab) } else { TOMLS[key - 1].0.to_string() };
                        let new = formatted(&slice, &toml).unwrap_or_else(|| panic!("does not parse: {slice:?}"));
                        outs.push(json!({"list": l.id, "from": i + 1, "to": j + 1, "key": key, "text": codes(&new)}));
                    }
                }
            }
        }
        json!({"op": "range", "uri": k, "spaces": spaces, "tab": tab, "start": pos_json(position(text, enc, a)),
               "end": pos_json(position(text, enc, b)), "a": a, "b": b, "outs": outs})
    }
    fn event(&mut self, texts: &mut BTreeMap<usize, Vec<char>>, enc: &str) -> Value {
        let k = self.doc();
        if self.profile == "range" {
            let k = *self.rng.pick(&[1, 2, 7]);
            return if !self.programs.contains_key(&k) || self.rng.chance(1, 6) { self.open_program(k) } else { self.range(k, enc) };
        }
        // mostly about documents that there are
        let k = if !texts.is_empty() && self.rng.chance(3, 5) { *self.rng.pick(&texts.keys().copied().collect::<Vec<_>>()) } else { k };
        let weights: &[(&str, usize)] = match self.profile {
            "text" => &[("open", 4), ("change", 5), ("format", 8), ("close", 1), ("folders", 1)],
            "settings" => &[("open", 3), ("format", 8), ("folders", 5), ("close", 1)],
            "sync" => &[("open", 4), ("config", 5), ("folders", 3), ("close", 1), ("format", 1)],
            _ => &[("open", 4), ("change", 4), ("format", 4), ("close", 3), ("view", 3), ("unknown", 2), ("save", 1), ("config", 1), ("folders", 1)],
        };
        let total: usize = weights.iter().map(|w| w.1).sum();
        let mut n = self.rng.below(total);
        let mut op = weights[0].0;
        for (name, w) in weights {
            if n < *w {
                op = name;
                break;
            }
            n -= w;
        }
        match op {
            "open" => {
                let e = self.open(k);
                texts.insert(k, from_codes(&e["text"]).chars().collect());
                e
            }
            "change" => {
                let mut text = texts.get(&k).cloned().unwrap_or_default();
                let n = self.rng.range(1, 3);
                let changes: Vec<Value> = (0..n).map(|_| change(self.rng, &mut text, enc)).collect();
                if texts.contains_key(&k) {
                    texts.insert(k, text);
                }
                json!({"op": "change", "uri": k, "changes": changes})
            }
            "close" => {
                texts.remove(&k);
                json!({"op": "close", "uri": k})
            }
            "folders" => {
                let mut some = |n| (0..self.rng.below(n)).map(|_| some_dir(self.rng)).collect::<Vec<_>>();
                let (added, removed) = (some(3), some(2));
                json!({"op": "folders", "added": added, "removed": removed, "odd": self.rng.chance(1, 8)})
            }
            "view" => json!({"op": "view", "uri": k, "kind": *self.rng.pick(&["TreeSitter", "SyntaxTree", "FormatTree"])}),
            "format" => self.format(k),
            op => json!({"op": op, "uri": k}),
        }
    }
    fn next(&mut self, client: &Client<'_>) -> Option<Value> {
        let (texts, enc) = (&client.texts, client.enc);
        let sync = match self.rng.below(4) {
            0 => "null",
            1 => "false",
            _ => "true",
        };
        let mode = if self.rng.chance(1, 8) && matches!(self.profile, "sync" | "order") { *self.rng.pick(&["short", "error"]) } else { "ok" };
        let reply = json!({"mode": mode, "sync": sync});
        if let Some(e) = self.queue.pop() {
            return Some(json!({"events": [e], "reply": reply}));
        }
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        if let Some((k, edits)) = &client.offered
            && self.rng.chance(1, 2)
        {
            // the client does what it was told to, from the end of the document
            let mut edits = edits.clone();
            edits.reverse();
            let changes: Vec<Value> = edits
                .into_iter()
                .map(|mut e| {
                    e["full"] = json!(false);
                    e
                })
                .collect();
            let e = self.format(*k);
            self.queue.push(e);
            self.programs.remove(k);
            return Some(json!({"events": [{"op": "change", "uri": k, "changes": changes}], "reply": reply}));
        }
        if matches!(self.profile, "settings" | "sync") && self.rng.chance(2, 5) {
            // a configuration changes, of which the server is told, mostly
            let dir = json!(*self.rng.pick(PLACES));
            let hidden = self.rng.chance(1, 4);
            let toml = if self.rng.chance(1, 4) { 0 } else { self.rng.range(1, TOMLS.len()) };
            let mut docs: Vec<usize> = texts.keys().copied().collect();
            self.rng.shuffle(&mut docs);
            for k in docs.into_iter().take(3) {
                let e = self.format(k);
                self.queue.push(e);
            }
            if self.rng.chance(4, 5) {
                let mut path = dir.as_array().unwrap().clone();
                path.push(json!(match (self.rng.below(10), hidden) {
                    (0, _) => "other.toml",
                    (1, _) => "xair.toml",
                    (_, true) => ".air.toml",
                    _ => "air.toml",
                }));
                let mut paths = vec![Value::Array(path)];
                if self.rng.chance(1, 5) {
                    paths.push(json!(["q r", "air.toml"]));
                }
                self.queue.push(json!({"op": "watched", "paths": paths}));
            }
            return Some(json!({"events": [{"op": "disk", "dir": dir, "hidden": hidden, "toml": toml}], "reply": reply}));
        }
        let n = if self.profile == "order" { self.rng.range(1, 7) } else { self.rng.range(1, 2) };
        let mut after = texts.clone();
        let events: Vec<Value> = (0..n).map(|_| self.event(&mut after, enc)).collect();
        Some(json!({"events": events, "reply": reply}))
    }
}

/// Random conversations.
pub fn trace(profile: &str, n: usize, shard: usize) {
    let world = World::new();
    let mut rng = Rng::from_env(61 + 7 * shard as u64 + profile.len() as u64 * 1000);
    for _ in 0..n {
        world.clear();
        dissimilar::GRAIN.set(rng.below(4) as u8);
        // configurations that are there from the start
        let mut disk = vec![];
        let mut there = vec![];
        for d in World::dirs() {
            if rng.chance(1, if profile == "range" { 8 } else { 2 }) && profile != "order" {
                let (toml, hidden) = (rng.range(1, TOMLS.len()), rng.chance(1, 4));
                let toml = if toml == 2 && profile == "range" { 1 } else { toml };
                if !TOMLS[toml - 1].1 {
                    there.push(toml);
                }
                let dir = d.iter().fold(world.root.clone(), |p, part| p.join(part));
                std::fs::write(dir.join(if hidden { ".air.toml" } else { "air.toml" }), TOMLS[toml - 1].0).unwrap();
                disk.push(json!({"dir": d, "hidden": hidden, "toml": toml}));
            }
        }
        let begin = init(&mut rng, profile);
        let left = match profile {
            "start" => rng.below(3),
            "order" => rng.range(2, 6),
            _ => rng.range(4, 12),
        };
        let mut chooser = Chooser { there, programs: BTreeMap::new(), rng: &mut rng, profile, left, queue: vec![] };
        let mut ep = converse(&world, begin, |client| chooser.next(client));
        ep["disk"] = Value::Array(disk);
        emit(&ep);
    }
}

/// The histories of MC_Server: which configuration each document has in the end.
pub fn replay(path: &str) {
    let world = World::new();
    let mut rng = Rng::new(1);
    for case in vfcommon::read_ndjson(path) {
        world.clear();
        let mut bursts: Vec<Value> = vec![];
        let reply = json!({"mode": "ok", "sync": "false"});
        let mut add = |e: Value| bursts.push(json!({"events": [e], "reply": reply}));
        let docs = [1, 2, 3, 6];
        for k in docs {
            add(json!({"op": "open", "uri": k, "text": codes("{1}")}));
        }
        for e in case["hist"].as_array().unwrap() {
            add(match e["op"].as_str().unwrap() {
                "disk" => e.clone(),
                "open" => json!({"op": "folders", "added": [e["dir"]], "removed": []}),
                "close" => json!({"op": "folders", "added": [], "removed": [e["dir"]]}),
                _ => json!({"op": "watched", "paths": [e["path"]]}),
            });
        }
        for k in docs {
            add(json!({"op": "format", "uri": k, "spaces": true, "tab": 7}));
        }
        bursts.reverse();
        let mut begin = init(&mut rng, "settings");
        begin["folders"] = json!([]);
        let ep = converse(&world, begin, |_| bursts.pop());
        let all = ep["bursts"].as_array().unwrap();
        let wrong = all.len() < docs.len() || (0..docs.len()).any(|i| {
            let burst = &all[all.len() - docs.len() + i];
            let key = &case["configured"][i];
            let out = burst["events"][0]["outs"].as_array().unwrap().iter().find(|o| o["key"] == *key);
            let new = out.map(|o| from_codes(&o["text"]));
            let mut got: Vec<char> = "{1}".chars().collect();
            let mut edits = burst["outs"][0]["edits"].as_array().cloned().unwrap_or_default();
            edits.reverse();
            for e in edits {
                let (s, t) = (pos_of(&e["start"]), pos_of(&e["end"]));
                got.splice(s.character as usize..t.character as usize, from_codes(&e["text"]).chars());
            }
            new != Some(got.into_iter().collect())
        });
        if wrong {
            emit(&json!({"case": case, "got": all.iter().rev().take(4).map(|b| b["outs"].clone()).collect::<Vec<_>>()}));
        }
    }
}
