//! What the server logs, and to whom.
use crate::server::{Client, World, begin, end};
use std::io::{Read, Seek, SeekFrom};
use std::os::fd::AsRawFd;
use std::time::Duration;
use tracing::Level;
use vfcommon::{Rng, Value, at, emit, json};

type Site = (fn() -> bool, fn(usize));
macro_rules! sites {
    ($($target:literal),*) => {
        &[$((
            $target,
            [
                site!($target, Level::ERROR),
                site!($target, Level::WARN),
                site!($target, Level::INFO),
                site!($target, Level::DEBUG),
                site!($target, Level::TRACE),
            ],
        )),*]
    };
}
macro_rules! site {
    ($target:literal, $level:expr) => {
        (
            || tracing::enabled!(target: $target, $level),
            |n| tracing::event!(target: $target, $level, "vfmark<{n}>"),
        )
    };
}
/// Places in the code that log, at all levels. The first three are air's own.
const SITES: &[(&str, [Site; 5])] = sites!(
    "lsp", "lsp::main_loop", "workspace::discovery", "air_r_formatter", "tokio", "tower_lsp", "tower_lsp::codec", "globset"
);

/// What is written to stderr.
struct Stderr {
    file: std::fs::File,
    kept: i32,
}
impl Stderr {
    fn new(world: &World) -> Self {
        let path = world.root.join("stderr");
        let file = std::fs::OpenOptions::new().create(true).read(true).append(true).open(path).unwrap();
        file.set_len(0).unwrap();
        let kept = unsafe { libc::dup(2) };
        unsafe { libc::dup2(file.as_raw_fd(), 2) };
        Stderr { file, kept }
    }
    fn taken(&mut self) -> String {
        let mut text = String::new();
        self.file.seek(SeekFrom::Start(0)).unwrap();
        self.file.read_to_string(&mut text).unwrap();
        self.file.set_len(0).unwrap();
        text
    }
}
impl Drop for Stderr {
    fn drop(&mut self) {
        unsafe { libc::dup2(self.kept, 2) };
    }
}

/// The numbers of the marks in a text.
fn marks(text: &str) -> Vec<usize> {
    text.split("vfmark<").skip(1).filter_map(|s| s.split('>').next()?.parse().ok()).collect()
}
/// What a text says about levels: that of air, and those of the others.
fn told(text: &str) -> Vec<Value> {
    text.split("Updating log level:")
        .skip(1)
        .map(|s| {
            let line = |name: &str| {
                s.lines().find_map(|l| l.trim().strip_prefix(name)).map(str::trim).unwrap_or("?").to_string()
            };
            let deps = line("Dependency log levels: ");
            let deps = match deps.strip_prefix("Some(\"").and_then(|d| d.strip_suffix("\")")) {
                Some(inner) => inner.to_string(),
                None if deps == "None" => "none".to_string(),
                None => format!("?{deps}"),
            };
            json!({"level": line("Log level: ").to_lowercase(), "deps": deps})
        })
        .collect()
}

/// "none" is nothing, "wrong" something of another type.
fn level_json(level: &str) -> Value {
    match level {
        "none" => Value::Null,
        "wrong" => json!(3),
        _ => json!(level),
    }
}
fn deps_text(deps: &Value) -> Option<String> {
    match deps["kind"].as_str().unwrap() {
        "list" => {
            let words: Vec<String> = deps["list"]
                .as_array()
                .unwrap()
                .iter()
                .map(|d| match (d["target"].as_str().unwrap(), d["level"].as_str().unwrap()) {
                    ("", level) => level.to_string(),
                    (target, level) => format!("{target}={level}"),
                })
                .collect();
            Some(words.join(","))
        }
        "garbage" => Some("tokio=loud,debug".to_string()),
        _ => None,
    }
}
fn deps_json(deps: &Value) -> Value {
    match deps["kind"].as_str().unwrap() {
        "wrong" => json!([1]),
        _ => deps_text(deps).map_or(Value::Null, Value::String),
    }
}
fn with_text(deps: &Value) -> Value {
    let mut deps = deps.clone();
    deps["text"] = json!(deps_text(&deps).unwrap_or("none".to_string()));
    deps
}

async fn look(client: &mut Client<'_>, stderr: &mut Stderr, listens: bool) -> Value {
    client.fence().await;
    let mut levels = vec![];
    let mut n = 0;
    for (target, sites) in SITES {
        let enabled: Vec<bool> = sites.iter().map(|(enabled, _)| enabled()).collect();
        let level = enabled.iter().take_while(|on| **on).count();
        // what comes behind a level that is off is off
        let odd = enabled.iter().skip(level).any(|on| *on);
        levels.push(json!({"target": target, "level": level, "odd": odd}));
        for (_, log) in sites {
            n += 1;
            log(n);
        }
    }
    // the last of the marks, always enabled, is waited for
    tracing::event!(target: "lsp", Level::ERROR, "vfmark<0>");
    let text = |client: &Client<'_>| client.logs.iter().map(|(_, text)| text.clone()).collect::<Vec<_>>().join("\n");
    if listens {
        let until = std::time::Instant::now() + Duration::from_secs(2);
        while !marks(&text(client)).contains(&0) && !client.dead && std::time::Instant::now() < until {
            let _ = tokio::time::timeout(Duration::from_millis(200), client.one()).await;
        }
    }
    client.fence().await;
    tokio::task::yield_now().await;
    client.fence().await;
    let heard = text(client);
    let types = client.logs.iter().all(|(kind, _)| *kind == 4);
    // the text of one is one message
    let whole = client.logs.iter().all(|(_, text)| marks(text).len() <= 1);
    client.logs.clear();
    let written = stderr.taken();
    json!({"levels": levels, "types": types, "whole": whole,
           "heard": marks(&heard), "told": told(&heard), "written": marks(&written), "wrote": told(&written)})
}

fn run(world: &World, ep: &Value) -> Value {
    let mut ep = ep.clone();
    for (name, value) in [
        ("AIR_LOG_LEVEL", level_json(ep["env"]["level"].as_str().unwrap())),
        ("AIR_DEPENDENCY_LOG_LEVELS", deps_json(&ep["env"]["deps"])),
    ] {
        match value.as_str() {
            Some(text) => unsafe { std::env::set_var(name, text) },
            None => unsafe { std::env::remove_var(name) },
        }
    }
    let name = ep["client"].as_str().unwrap().to_string();
    let listens = name.starts_with("Zed") || name.starts_with("Visual Studio Code");
    let first = &ep["first"];
    let given = match first["how"].as_str().unwrap() {
        "null" => Value::Null,
        "nonsense" => json!("nonsense"),
        "empty" => json!({}),
        _ => json!({"logLevel": level_json(first["level"].as_str().unwrap()), "dependencyLogLevels": deps_json(&first["deps"]),
                    "other": true}),
    };
    let mut init = json!({"encodings": ["utf-8"], "general": false, "workspace": true, "regconf": 3, "regwatch": 0,
                          "configuration": 2, "folders": [], "options": 9, "given": given});
    if !name.is_empty() {
        init["client"] = json!(name);
    }
    ep["first"]["deps"] = with_text(&ep["first"]["deps"]);
    ep["env"]["deps"] = with_text(&ep["env"]["deps"]);
    let mut stderr = Stderr::new(world);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let (a, b) = tokio::io::duplex(1 << 20);
        let server = tokio::spawn(async move {
            let (read, write) = tokio::io::split(b);
            lsp::start_lsp(read, write).await
        });
        let mut client = Client::new(world, a, false);
        begin(&mut client, &init).await;
        ep["seen"] = look(&mut client, &mut stderr, listens).await;
        for k in 0..ep["steps"].as_array().unwrap().len() {
            let step = ep["steps"][k].clone();
            client.reply = json!({"mode": step["reply"], "sync": "false", "level": level_json(step["level"].as_str().unwrap()),
                                  "deps": deps_json(&step["deps"])});
            client.notify("workspace/didChangeConfiguration", json!({"settings": null})).await;
            ep["steps"][k]["deps"] = with_text(&step["deps"]);
            ep["steps"][k]["seen"] = look(&mut client, &mut stderr, listens).await;
        }
        ep["ended"] = end(&mut client, server).await;
    });
    ep
}

fn some_deps(rng: &mut Rng) -> Value {
    match rng.below(7) {
        0 | 1 => json!({"kind": "none", "list": []}),
        2 => json!({"kind": "garbage", "list": []}),
        3 => json!({"kind": "wrong", "list": []}),
        _ => {
            let list: Vec<Value> = (0..rng.range(1, 3))
                .map(|_| {
                    let target = *rng.pick(&["", "tokio", "tower_lsp", "tower_lsp::codec", "lsp", "lsp::main_loop", "workspace"]);
                    json!({"target": target, "level": *rng.pick(&["off", "error", "warn", "info", "debug", "trace"])})
                })
                .collect();
            json!({"kind": "list", "list": list})
        }
    }
}
fn some_level(rng: &mut Rng) -> &'static str {
    *rng.pick(&["none", "none", "error", "warn", "warning", "info", "debug", "trace", "Info", "loud", "wrong"])
}

pub fn trace(n: usize, shard: usize) {
    tracing::subscriber::LISTEN.set(true);
    let world = World::new();
    let mut rng = Rng::from_env(97 + shard as u64);
    for _ in 0..n {
        let mut steps = vec![];
        for _ in 0..rng.below(5) {
            let reply = *rng.pick(&["ok", "ok", "ok", "ok", "ok", "short", "fail"]);
            steps.push(json!({"reply": reply, "level": some_level(&mut rng), "deps": some_deps(&mut rng)}));
            if rng.chance(1, 4) {
                // the same again
                let mut again = steps[steps.len() - 1].clone();
                again["reply"] = json!("ok");
                steps.push(again);
            }
        }
        let none = json!({"kind": "none", "list": []});
        let level = if rng.chance(1, 3) { *rng.pick(&["warn", "warning", "debug", "loud", "trace", "error"]) } else { "none" };
        let mut deps = if rng.chance(1, 4) { some_deps(&mut rng) } else { none };
        if deps["kind"] == "wrong" {
            deps["kind"] = json!("none");
        }
        let ep = json!({
            "client": *rng.pick(&["Visual Studio Code", "Visual Studio Code", "Zed", "Zed Preview", "Visual Studio Code - Insiders",
                                  "Neovim", "", "Positron", "My Zed"]),
            "env": {"level": level, "deps": deps},
            "first": {"how": *rng.pick(&["given", "given", "given", "null", "nonsense", "empty"]), "level": some_level(&mut rng),
                      "deps": some_deps(&mut rng)},
            "steps": steps,
        });
        at(&ep.to_string());
        emit(&run(&world, &ep));
    }
}

/// Histories that the specification gives, with the levels that it expects at the end of each.
pub fn replay(path: &str) {
    tracing::subscriber::LISTEN.set(true);
    let world = World::new();
    for case in vfcommon::read_ndjson(path) {
        at(&case.to_string());
        let got = run(&world, &case);
        let steps = got["steps"].as_array().unwrap();
        let seen = steps.last().map_or(&got["seen"], |s| &s["seen"]);
        let levels: Vec<Value> = seen["levels"].as_array().unwrap().iter().map(|l| l["level"].clone()).collect();
        if json!(levels) != case["levels"] {
            emit(&json!({"case": case, "got": levels}));
        }
    }
}
