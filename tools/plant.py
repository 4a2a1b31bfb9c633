"""Writes and tries planted bugs (not part of any check).

`python3 tools/plant.py write [id..]`  writes seeded/<id>/ from tools/plants/*.py
`python3 tools/plant.py try [id..]`    build, stable tests, demo with and without, and the checks, one bug after another
"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
REPO = "/repo"

DEMO = """#!/bin/bash
# Exit 0: the example in main.rs behaves as the property says. Run in the root of the repository.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=1.94 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
tmp=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src" "$tmp/work"
for f in "$here"/*.rs; do sed "s|@REPO@|$repo|g" "$f" > "$tmp/src/$(basename "$f")"; done
sed "s|@REPO@|$repo|g" "$here/manifest.toml" > "$tmp/Cargo.toml"
if [ -d "$here/shim" ]; then cp -r "$here/shim" "$tmp/shim"; fi
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cd "$tmp"
export CARGO_TARGET_DIR="$tmp/target"
cargo build -q --offline 1>&2
cd "$tmp/work"
timeout 60 "$tmp/target/debug/demo"
"""
APP_DEMO = """#!/bin/bash
# Exit 0: the script, which uses the air command (over a toy language, see shim/), behaves as the property says.
# Run in the root of the repository.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=1.94 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_PROFILE_DEV_DEBUG=0
tmp=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/work"
cp -r "$here/pkg" "$here/shim" "$tmp/"
cp "$here/manifest.toml" "$tmp/Cargo.toml"
find "$tmp" -name "*.toml" -o -name "*.rs" | xargs sed -i "s|/repo/|$repo/|g"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cd "$tmp"
export CARGO_TARGET_DIR="$tmp/target"
cargo build -q --offline 1>&2
export AIR="$tmp/target/debug/air" NO_COLOR=1
cd "$tmp/work"
timeout 60 bash "$here/script.sh"
"""
R_DEMO = """#!/bin/bash
# Exit 0: main.rs, which uses the formatter (on stand-ins for what it is built on, see shim/), behaves as the property says.
# Run in the root of the repository.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=1.94 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_PROFILE_DEV_DEBUG=0
tmp=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/demo/src"
cp -r "$here/pkg" "$here/shim" "$tmp/"
cp "$here/main.rs" "$tmp/demo/src/"
cp "$here/manifest.toml" "$tmp/Cargo.toml"
cp "$here/demo.toml" "$tmp/demo/Cargo.toml"
cp "$here/Cargo.lock" "$tmp/Cargo.lock"
find "$tmp" -name "*.toml" -o -name "*.rs" | xargs sed -i "s|/repo/|$repo/|g"
cd "$tmp"
export CARGO_TARGET_DIR="$tmp/target"
cargo build -q --offline 1>&2
timeout 60 "$tmp/target/debug/demo"
"""
R_TOML = """[package]
name = "demo"
version = "0.0.0"
edition = "2024"

[dependencies]
air_r_parser = { path = "../pkg/air_r_parser" }
air_r_syntax = { path = "../pkg/air_r_syntax" }
workspace = { path = "../pkg/workspace" }
"""
LSP_DEMO = R_DEMO.replace("which uses the formatter (", "which uses the language server (").replace("see shim/", "see r/shim/ and lsp/shim/") \
    .replace('mkdir -p "$tmp/demo/src"\ncp -r "$here/pkg" "$here/shim" "$tmp/"', 'mkdir -p "$tmp/lsp/demo/src" "$tmp/work"\ncp -r "$here/r" "$here/lsp" "$tmp/"') \
    .replace('"$tmp/demo/', '"$tmp/lsp/demo/').replace('"$tmp/Cargo', '"$tmp/lsp/Cargo').replace('cd "$tmp"\n', 'cd "$tmp/lsp"\n') \
    .replace('timeout 60', 'cd "$tmp/work"\ntimeout 60')
CODE_DEMO = """#!/bin/bash
# Exit 0: main.js, which uses the VS Code extension (with stand-ins for the editor, see stubs.js), behaves as the property says.
# Run in the root of the repository.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
unset CI NODE_OPTIONS NODE_PATH
tmp=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -rf "$tmp"' EXIT
timeout 60 node "$here/main.js" "$repo" "$tmp"
"""
CODE_MAIN = """"use strict";
const assert = require("assert");
const { Episode } = require("./driver.js");
"""
LSP_TOML = """[package]
name = "demo"
version = "0.0.0"
edition = "2024"

[dependencies]
aether_lsp_utils = { path = "../pkg/aether_lsp_utils" }
air_r_parser = { path = "../../r/pkg/air_r_parser" }
biome_line_index = { path = "../shim/biome_line_index" }
biome_text_size = { path = "../../r/shim/biome_text_size" }
lsp = { path = "../pkg/lsp" }
settings = { path = "../../r/pkg/settings", features = ["biome", "serde"] }
tower-lsp = { path = "../shim/tower-lsp" }
tracing = { path = "../shim/tracing" }
tokio = { version = "1.50.0", features = ["full"] }
url = "2.5.3"
serde_json = "1"
"""
LSP_MAIN = r"""#![allow(dead_code, unused_imports)]
use serde_json::{Value, json};
use std::time::Duration;
use tokio::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt, BufReader, DuplexStream, ReadHalf, WriteHalf};

/// A client of the server.
struct Client {
    read: BufReader<ReadHalf<DuplexStream>>,
    write: WriteHalf<DuplexStream>,
    id: i64,
    /// whether it wants to know of settings, and whether it answers when it is asked
    sync: bool,
    answers: bool,
    asked: Vec<Value>,
    told: Vec<Value>,
    registered: Vec<Value>,
    version: i64,
    init: Value,
    /// `air.logLevel` and `air.dependencyLogLevels`
    levels: [Value; 2],
    logged: Vec<String>,
}
impl Client {
    async fn send(&mut self, message: Value) {
        let body = message.to_string();
        self.write.write_all(format!("Content-Length: {}\r\n\r\n{body}", body.len()).as_bytes()).await.expect("a server");
    }
    async fn receive(&mut self) -> Value {
        let mut length = 0;
        loop {
            let mut line = String::new();
            assert!(self.read.read_line(&mut line).await.unwrap() > 0, "the server is gone");
            if line.trim().is_empty() {
                break;
            }
            if let Some(n) = line.strip_prefix("Content-Length: ") {
                length = n.trim().parse().unwrap();
            }
        }
        let mut body = vec![0; length];
        self.read.read_exact(&mut body).await.unwrap();
        serde_json::from_slice(&body).unwrap()
    }
    async fn notify(&mut self, method: &str, params: Value) {
        self.send(json!({"jsonrpc": "2.0", "method": method, "params": params})).await;
    }
    async fn request(&mut self, method: &str, params: Value) -> Result<Value, Value> {
        self.id += 1;
        let id = self.id;
        let mut message = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if !params.is_null() {
            message["params"] = params;
        }
        self.send(message).await;
        self.wait(id).await
    }
    async fn wait(&mut self, id: i64) -> Result<Value, Value> {
        loop {
            let m = tokio::time::timeout(Duration::from_secs(15), self.receive()).await.expect("an answer");
            if m["method"].is_null() {
                assert_eq!(m["id"], id, "answers are in order");
                return if m["error"].is_null() { Ok(m["result"].clone()) } else { Err(m["error"].clone()) };
            }
            match m["method"].as_str().unwrap() {
                "workspace/configuration" => {
                    let items = m["params"]["items"].as_array().unwrap().clone();
                    let values: Vec<Value> = items
                        .iter()
                        .map(|i| match i["section"].as_str().unwrap() {
                            "air.syncFileSettingsWithClient" => json!(self.sync),
                            "air.logLevel" => self.levels[0].clone(),
                            "air.dependencyLogLevels" => self.levels[1].clone(),
                            _ => Value::Null,
                        })
                        .collect();
                    self.asked.push(json!(items));
                    let answer = if self.answers {
                        json!({"jsonrpc": "2.0", "id": m["id"], "result": values})
                    } else {
                        json!({"jsonrpc": "2.0", "id": m["id"], "error": {"code": -32603, "message": "no"}})
                    };
                    self.send(answer).await;
                }
                "client/registerCapability" => {
                    self.registered.extend(m["params"]["registrations"].as_array().unwrap().clone());
                    self.send(json!({"jsonrpc": "2.0", "id": m["id"], "result": null})).await;
                }
                "window/logMessage" => self.logged.push(m["params"]["message"].as_str().unwrap().to_string()),
                "air/syncFileSettings" => self.told.push(m["params"]["file_settings"].clone()),
                _ => {}
            }
        }
    }
    /// Waits until the server has dealt with everything.
    async fn fence(&mut self) {
        let _ = self.request("air/viewFile", json!({"textDocument": {"uri": "fence:x"}, "position": at(0, 0), "kind": "SyntaxTree"})).await;
    }
    async fn open(&mut self, uri: &str, text: &str) {
        self.version += 1;
        let version = self.version;
        self.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "r", "version": version, "text": text}})).await;
    }
    async fn change(&mut self, uri: &str, changes: Value) {
        self.version += 1;
        let version = self.version;
        self.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": changes})).await;
    }
    async fn folders(&mut self, added: &[&str], removed: &[&str]) {
        let all = |dirs: &[&str]| dirs.iter().map(|d| json!({"uri": url(d), "name": "w"})).collect::<Vec<_>>();
        let event = json!({"added": all(added), "removed": all(removed)});
        self.notify("workspace/didChangeWorkspaceFolders", json!({"event": event})).await;
    }
    async fn changed(&mut self, file: &str) {
        self.notify("workspace/didChangeWatchedFiles", json!({"changes": [{"uri": url(file), "type": 2}]})).await;
    }
    /// The document as the client has it after formatting.
    async fn format(&mut self, uri: &str, text: &str) -> String {
        let options = json!({"tabSize": 3, "insertSpaces": true});
        let edits = self.request("textDocument/formatting", json!({"textDocument": {"uri": uri}, "options": options})).await;
        apply(text, &edits.expect("an answer"))
    }
    async fn format_range(&mut self, uri: &str, text: &str, start: Value, end: Value) -> String {
        let options = json!({"tabSize": 3, "insertSpaces": true});
        let range = json!({"start": start, "end": end});
        let edits = self.request("textDocument/rangeFormatting", json!({"textDocument": {"uri": uri}, "range": range, "options": options})).await;
        apply(text, &edits.expect("an answer"))
    }
    async fn view(&mut self, uri: &str) -> Result<Value, Value> {
        self.request("air/viewFile", json!({"textDocument": {"uri": uri}, "position": at(0, 0), "kind": "SyntaxTree"})).await
    }
    async fn stop(&mut self) {
        self.request("shutdown", Value::Null).await.expect("an answer");
        self.notify("exit", Value::Null).await;
    }
}
fn at(line: u32, character: u32) -> Value {
    json!({"line": line, "character": character})
}
/// A file in the working directory.
fn url(path: &str) -> String {
    url::Url::from_file_path(std::env::current_dir().unwrap().join(path)).unwrap().to_string()
}
fn write(path: &str, text: &str) {
    if let Some(dir) = std::path::Path::new(path).parent() {
        std::fs::create_dir_all(dir).unwrap();
    }
    std::fs::write(path, text).unwrap();
}
/// Edits with positions in UTF-16 units.
fn apply(text: &str, edits: &Value) -> String {
    let units: Vec<u16> = text.encode_utf16().collect();
    let offset = |p: &Value| {
        let mut at = 0;
        for _ in 0..p["line"].as_u64().unwrap() {
            at += units[at..].iter().position(|u| *u == 10).expect("a line") + 1;
        }
        let at = at + p["character"].as_u64().unwrap() as usize;
        assert!(at <= units.len(), "outside of the document");
        at
    };
    let mut edits: Vec<(usize, usize, String)> = edits
        .as_array()
        .into_iter()
        .flatten()
        .map(|e| (offset(&e["range"]["start"]), offset(&e["range"]["end"]), e["newText"].as_str().unwrap().to_string()))
        .collect();
    edits.sort_by_key(|e| (e.0, e.1));
    let (mut out, mut last) = (vec![], 0);
    for (start, end, new) in edits {
        assert!(start >= last && end >= start, "edits overlap");
        out.extend_from_slice(&units[last..start]);
        out.extend(new.encode_utf16());
        last = end;
    }
    out.extend_from_slice(&units[last..]);
    String::from_utf16(&out).unwrap()
}
/// What a client says first that has these folders.
fn hello(folders: &[&str]) -> Value {
    let folders: Vec<Value> = folders.iter().map(|d| json!({"uri": url(d), "name": "w"})).collect();
    json!({"processId": null, "rootUri": null, "workspaceFolders": folders,
           "capabilities": {"workspace": {"configuration": true, "didChangeConfiguration": {"dynamicRegistration": true},
                                          "didChangeWatchedFiles": {"dynamicRegistration": true}}}})
}
async fn start(hello: Value) -> Client {
    let (a, b) = tokio::io::duplex(1 << 20);
    tokio::spawn(async move {
        let (read, write) = tokio::io::split(b);
        lsp::start_lsp(read, write).await
    });
    let (read, write) = tokio::io::split(a);
    let mut c = Client { read: BufReader::new(read), write, id: 0, sync: false, answers: true, asked: vec![], told: vec![],
                         registered: vec![], version: 0, init: Value::Null, levels: [Value::Null, Value::Null], logged: vec![] };
    c.init = c.request("initialize", hello).await.expect("an answer");
    c.notify("initialized", json!({})).await;
    c.fence().await;
    c
}

"""
R_MAIN = """#![allow(dead_code)]
use std::path::Path;
use workspace::format::{FormattedSource, format_source};

/// What `air format` makes of a text under an air.toml.
fn format(text: &str, toml: &str) -> Result<String, String> {
    let options = workspace::toml::parse_air_inline_toml(toml).expect("a valid air.toml");
    let options = options.into_settings(Path::new("")).expect("settings").format.to_format_options(text);
    match format_source(text, options) {
        Ok(FormattedSource::Changed(new)) => Ok(new),
        Ok(FormattedSource::Unchanged) => Ok(text.to_string()),
        Err(error) => Err(error.to_string()),
    }
}
fn same(text: &str, toml: &str, want: &str) {
    assert_eq!(format(text, toml).unwrap(), want, "of {text}");
}
fn tree(text: &str) -> String {
    format!("{:#?}", air_r_parser::parse(text, air_r_parser::RParserOptions::default()).syntax())
}

"""
SCRIPT = """set -u
fail() { echo "assert: $*"; exit 1; }
"""
HEAD = '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "%s"\n\n[features]\nschemars = []\n\n[workspace]\n\n[dependencies]\n'
SETTINGS = 'settings = { path = "@REPO@/crates/settings", features = ["serde"] }\n'
SERDE = 'serde = { version = "1.0.215", features = ["derive"] }\nserde_json = "1.0.132"\ntoml = "0.8.19"\n'
TRACING = 'tracing = { version = "0.1.40", default-features = false, features = ["std"] }\n'
ALLOW = "#![allow(dead_code, unused_imports, unused_variables)]\n"
AREAS = {
    "line_ending": ("2024", SETTINGS + SERDE + 'line_ending = { path = "@REPO@/crates/line_ending" }\n', ""),
    "comments": ("2024", 'comments = { path = "@REPO@/crates/comments" }\n', ""),
    "fs": ("2024", 'fs = { path = "@REPO@/crates/fs" }\n', ""),
    "settings": ("2024", SETTINGS + SERDE, ""),
    "ungrammar": ("2024", 'biome_ungrammar = { path = "@REPO@/crates/biome_ungrammar" }\n', ""),
    "xtask": ("2021", 'xtask = { path = "@REPO@/xtask" }\n', ""),
    "resolve": ("2024", "", '#[path = "@REPO@/crates/workspace/src/resolve.rs"]\nmod resolve;\nuse resolve::PathResolver;\n'),
    "patterns": ("2024", SETTINGS + SERDE + TRACING + 'anyhow = "1.0.89"\nignore = "0.4.23"\nthiserror = "2.0.5"\n'
                 'line_ending = { path = "@REPO@/crates/line_ending" }\n',
                 "".join(f'{indent}#[path = "@REPO@/crates/workspace/src/{p}.rs"]\n{indent}pub mod {p.split("/")[-1]};\n'
                         if indent == "" else "" for indent, p in [("", "file_patterns")])
                 + "pub mod settings {\n" + "".join(
                     f'    #[path = "@REPO@/crates/workspace/src/settings/{p}.rs"]\n    pub mod {p};\n'
                     for p in ("default_exclude_patterns", "default_include_patterns", "exclude_patterns", "default_table"))
                 + '    mod le {\n        #[path = "@REPO@/crates/workspace/src/settings/line_ending.rs"]\n        pub mod line_ending;\n    }\n'
                 + "    pub fn ending(o: &str, text: &str) -> settings::LineEnding {\n"
                   "        let o: le::line_ending::LineEnding = serde_json::from_str(&format!(\"\\\"{o}\\\"\")).unwrap();\n"
                   "        o.finalize(text)\n    }\n"
                 + "    pub use default_exclude_patterns::*;\n    pub use default_include_patterns::*;\n"
                   "    pub fn exclude(root: &str, patterns: &[&str]) -> exclude_patterns::ExcludePatterns {\n"
                   "        exclude_patterns::ExcludePatterns::try_from_iter(root, patterns.iter().copied()).unwrap()\n    }\n}\n"),
    "codec": ("2024", SERDE + TRACING + 'bytes = "1.8.0"\nhttparse = "1.9.5"\nmemchr = "2.7.4"\n'
              'tokio-util = { version = "0.7.12", features = ["codec"] }\nfutures-util = "0.3.31"\n',
              '#[path = "@REPO@/crates/lsp_test/src/tower_lsp/codec.rs"]\nmod codec;\n'
              "use bytes::BytesMut;\nuse codec::LanguageServerCodec;\nuse serde_json::Value;\nuse tokio_util::codec::{Decoder, Encoder};\n"),
    "zed": ("2021", 'zed_extension_api = { path = "shim" }\n', '#[path = "@REPO@/editors/zed/src/lib.rs"]\nmod air;\n'),
}


def load():
    table = {}
    for path in sorted(glob.glob(os.path.join(VERIF, "tools/plants/*.py"))):
        spec = importlib.util.spec_from_file_location("p", path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        for b in mod.BUGS:
            assert b["id"] not in table, b["id"]
            table[b["id"]] = b
    return table


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh(["git", "-C", REPO, "checkout", "--", "."])


def write(b):
    assert not sh(["git", "-C", REPO, "status", "--porcelain"]).stdout.strip(), "/repo is not clean"
    d = os.path.join(SEEDED, b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        for path, old, new in b["edits"]:
            p = os.path.join(REPO, path)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], path, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", REPO, "diff"], stdout=subprocess.PIPE).stdout
    finally:
        clean()
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    if "files" in b:
        for name, text in b["files"].items():
            path = os.path.join(d, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            open(path, "w").write(text)
    if b["area"] == "app":
        for part in ("pkg", "shim"):
            shutil.copytree(os.path.join(VERIF, "harness/app", part), os.path.join(d, part))
        open(os.path.join(d, "manifest.toml"), "w").write('[workspace]\nresolver = "2"\nmembers = ["pkg/*", "shim/*"]\n')
        open(os.path.join(d, "script.sh"), "w").write(SCRIPT + b["script"])
        open(os.path.join(d, "demo.sh"), "w").write(APP_DEMO)
    elif b["area"] == "r":
        for part in ("pkg", "shim"):
            shutil.copytree(os.path.join(VERIF, "harness/r", part), os.path.join(d, part))
        open(os.path.join(d, "manifest.toml"), "w").write(
            '[workspace]\nresolver = "2"\nmembers = ["pkg/*", "shim/*", "demo"]\n')
        open(os.path.join(d, "demo.toml"), "w").write(R_TOML)
        shutil.copy(os.path.join(VERIF, "harness/r/Cargo.lock"), d)
        open(os.path.join(d, "main.rs"), "w").write(R_MAIN + b["main"])
        open(os.path.join(d, "demo.sh"), "w").write(R_DEMO)
    elif b["area"] == "lsp":
        for area in ("r", "lsp"):
            for part in ("pkg", "shim"):
                shutil.copytree(os.path.join(VERIF, "harness", area, part), os.path.join(d, area, part))
        open(os.path.join(d, "manifest.toml"), "w").write(
            '[workspace]\nresolver = "2"\nmembers = ["pkg/*", "shim/*", "demo"]\n')
        open(os.path.join(d, "demo.toml"), "w").write(LSP_TOML)
        shutil.copy(os.path.join(VERIF, "harness/lsp/Cargo.lock"), d)
        open(os.path.join(d, "main.rs"), "w").write(LSP_MAIN + b["main"])
        open(os.path.join(d, "demo.sh"), "w").write(LSP_DEMO)
    elif b["area"] == "code":
        for f in ("driver.js", "stubs.js"):
            shutil.copy(os.path.join(VERIF, "harness/code", f), d)
        open(os.path.join(d, "main.js"), "w").write(CODE_MAIN + b["main"])
        open(os.path.join(d, "demo.sh"), "w").write(CODE_DEMO)
    elif "demo" in b:
        open(os.path.join(d, "demo.sh"), "w").write(b["demo"])
    else:
        edition, deps, prelude = AREAS[b["area"]]
        open(os.path.join(d, "manifest.toml"), "w").write(HEAD % edition + deps + b.get("deps", ""))
        open(os.path.join(d, "main.rs"), "w").write(ALLOW + prelude + b["main"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        if b["area"] == "zed":
            shutil.copytree(os.path.join(VERIF, "harness/zed/shim"), os.path.join(d, "shim"),
                            ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
        f.write("\n")


def demo(i):
    return sh(["bash", os.path.join(SEEDED, i, "demo.sh")], cwd=REPO, timeout=300)


def attempt(i, checks=None):
    meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
    out = {"id": i, "property": meta["property"]}
    r = demo(i)
    out["demo_clean"] = r.returncode
    if r.returncode:
        print(r.stdout[-3000:])
    try:
        r = sh(["git", "-C", REPO, "apply", os.path.join(SEEDED, i, "patch.diff")])
        assert r.returncode == 0, r.stdout
        r = sh("bash /opt/vp/build.sh")
        out["build"] = r.returncode
        if r.returncode:
            print(r.stdout[-3000:])
            return out
        sh("bash /opt/vp/test.sh /tmp/plant-tests.json")
        t = json.load(open("/tmp/plant-tests.json"))
        out["tests_failed"] = t["failed"] if not hasattr(t["failed"], "__len__") else len(t["failed"])
        if os.path.exists(os.path.join(SEEDED, i, "lsp")):
            # The crate's own tests, which don't build without the harness
            r = sh("cargo test -q --offline -p lsp --lib", cwd=os.path.join(VERIF, "harness/lsp"), env={
                **os.environ, "CARGO_TARGET_DIR": "/tmp/lsptarget", "INSTA_UPDATE": "no", "CI": "1", "RUSTUP_TOOLCHAIN": "1.94",
                "CARGO_NET_OFFLINE": "true", "RUSTC_WRAPPER": "", "HOME": "/root", "PATH": "/root/.cargo/bin:" + os.environ["PATH"]})
            out["own_tests"] = r.returncode
            if r.returncode:
                print(r.stdout[-1500:])
        r = demo(i)
        out["demo_bug"] = r.returncode
        out["demo_says"] = next((l for l in r.stdout.splitlines() if 'panicked' in l or 'assert' in l), r.stdout[-200:])
        for c in checks or [meta["property"]]:
            start = time.time()
            r = sh(["python3", "check.py", c], cwd=VERIF, env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"}, timeout=900)
            caught = r.returncode == 1 and f"VIOLATION property={c}" in r.stdout
            out[c] = ("CAUGHT" if caught else f"missed (exit {r.returncode})") + f" {time.time() - start:.0f}s"
            if r.returncode not in (0, 1):
                out["said"] = r.stdout[-1500:]
    finally:
        clean()
    return out


def main():
    ids = sys.argv[2:]
    if sys.argv[1] == "write":
        table = load()
        for i in ids or table:
            write(table[i])
    else:
        for i in ids or sorted(os.listdir(SEEDED)):
            r = attempt(i)
            ok = r.get("demo_clean") == 0 and r.get("build") == 0 and r.get("tests_failed") == 0 and r.get("demo_bug", 0) != 0
            print("valid  " if ok else "INVALID", json.dumps(r), flush=True)


main()
