//! Drives editors/zed with the host played by the shim. Runs in a scratch directory.
#[allow(dead_code)]
#[path = "/repo/editors/zed/src/lib.rs"]
mod air;

use std::cell::RefCell;
use std::fs;
use std::path::Path;
use std::rc::Rc;

use vfcommon::{Rng, Value, emit, guarded, json};
use zed_extension_api::{
    Architecture, GithubRelease, GithubReleaseAsset, HOST, LanguageServerId, Os, Worktree,
};

const OSES: [(Os, &str); 3] = [(Os::Mac, "mac"), (Os::Linux, "linux"), (Os::Windows, "windows")];
const ARCHES: [(Architecture, &str); 3] =
    [(Architecture::Aarch64, "aarch64"), (Architecture::X86, "x86"), (Architecture::X8664, "x86_64")];
const VERSIONS: [&str; 3] = ["0.1.0", "0.2.0", "0.10.0"];

/// Names as documented for releases of air, written down independently of the code.
fn asset(os: &str, arch: &str) -> String {
    match os {
        "mac" => format!("air-{arch}-apple-darwin.tar.gz"),
        "linux" => format!("air-{arch}-unknown-linux-gnu.tar.gz"),
        _ => format!("air-{arch}-pc-windows-msvc.zip"),
    }
}
fn inside(os: &str, arch: &str) -> String {
    match os {
        "mac" => format!("air-{arch}-apple-darwin/air"),
        "linux" => format!("air-{arch}-unknown-linux-gnu/air"),
        _ => "air.exe".into(),
    }
}

fn walk(dir: &Path, rel: &str, dirs: &mut Vec<String>, files: &mut Vec<Value>) {
    let mut entries: Vec<_> = fs::read_dir(dir).unwrap().map(|e| e.unwrap()).collect();
    entries.sort_by_key(|e| e.file_name());
    for e in entries {
        let name = e.file_name().to_string_lossy().to_string();
        let path = if rel.is_empty() { name.clone() } else { format!("{rel}/{name}") };
        if e.file_type().unwrap().is_dir() {
            if rel.is_empty() {
                dirs.push(name);
            }
            walk(&e.path(), &path, dirs, files);
        } else {
            let (top, rest) = path.split_once('/').unwrap_or((&path, ""));
            files.push(json!({"top": top, "rest": rest}));
        }
    }
}
fn disk() -> Value {
    let (mut dirs, mut files) = (vec![], vec![]);
    walk(Path::new("."), "", &mut dirs, &mut files);
    json!({"dirs": dirs, "files": files})
}
fn put(path: &str) {
    if let Some(p) = Path::new(path).parent() {
        let _ = fs::create_dir_all(p);
    }
    let _ = fs::write(path, b"x");
}

fn main() {
    vfcommon::init(60);
    let args: Vec<String> = std::env::args().collect();
    let n: usize = args[1].parse().unwrap();
    let focus = args[2].as_str();
    let home = std::env::current_dir().unwrap();
    let mut rng = Rng::from_env(0x2ED);
    for ep in 0..n {
        vfcommon::at(&format!("episode {ep}"));
        let scratch = home.join(format!("z{ep}"));
        fs::create_dir_all(&scratch).unwrap();
        std::env::set_current_dir(&scratch).unwrap();
        episode(&mut rng, focus == "download");
        std::env::set_current_dir(&home).unwrap();
        fs::remove_dir_all(&scratch).unwrap();
    }
}

fn episode(rng: &mut Rng, downloads: bool) {
    HOST.with(|h| *h.borrow_mut() = Default::default());
    let (os, os_name) = *rng.pick(&OSES);
    let (arch, arch_name) = *rng.pick(&ARCHES);
    let outcome = Rc::new(RefCell::new("ok".to_string()));
    HOST.with(|h| {
        let mut h = h.borrow_mut();
        h.platform = Some((os, arch));
        let (o, bin) = (outcome.clone(), inside(os_name, arch_name));
        h.download = Some(Box::new(move |_url, dir, _| match o.borrow().as_str() {
            "ok" => {
                // What is in the way is replaced
                let path = format!("{dir}/{bin}");
                if Path::new(&path).is_dir() {
                    let _ = fs::remove_dir_all(&path);
                }
                put(&path);
                Ok(())
            }
            "empty" => {
                put(&format!("{dir}/README"));
                Ok(())
            }
            "partial" => {
                put(&format!("{dir}/README"));
                Err("connection reset".into())
            }
            _ => Err("connection reset".into()),
        }));
    });
    let id = LanguageServerId("air".into());
    let worktree = Worktree(7);
    let mut ext = air::__build();
    let mut events = vec![json!({"op": "platform", "os": os_name, "arch": arch_name})];
    for _ in 0..rng.range(3, 14) {
        match rng.below(if downloads { 12 } else { 10 }) {
            0 if !downloads || rng.chance(1, 4) => {
                // The user edits the settings
                let path = if rng.chance(1, 2) && !downloads { *rng.pick(&["/opt/air", "air", ""]) } else { "none" };
                let args = if rng.chance(1, 2) { Some(*rng.pick(&[&[][..], &["language-server", "--log"], &["x"]])) } else { None };
                let opt = *rng.pick(&["none", "1", "null", "{\"a\":1}"]);
                let conf = *rng.pick(&["none", "2", "null", "{\"b\":[]}"]);
                let mode = *rng.pick(&["ok", "ok", "ok", "ok", "bare", "broken", "missing"]);
                let mut doc = serde_json_map();
                if path != "none" || args.is_some() || rng.chance(1, 2) {
                    let mut b = serde_json_map();
                    if path != "none" {
                        b.insert("path".into(), json!(path));
                    }
                    if let Some(a) = args {
                        b.insert("arguments".into(), json!(a));
                    }
                    if rng.chance(1, 4) {
                        b.insert("env".into(), json!({"A": "B"}));
                    }
                    doc.insert("binary".into(), Value::Object(b));
                }
                if opt != "none" {
                    doc.insert("initialization_options".into(), vfcommon::serde_json::from_str(opt).unwrap());
                }
                if conf != "none" {
                    doc.insert("settings".into(), vfcommon::serde_json::from_str(conf).unwrap());
                }
                let ok = mode == "ok";
                HOST.with(|h| {
                    let mut h = h.borrow_mut();
                    h.settings.clear();
                    match mode {
                        "ok" => drop(h.settings.insert("air".into(), Value::Object(doc).to_string())),
                        "bare" => drop(h.settings.insert("air".into(), "{}".into())),
                        "broken" => drop(h.settings.insert("air".into(), "{\"binary\":7}".into())),
                        _ => {}
                    }
                });
                let text = |s: &str| if ok && s != "none" { s.to_string() } else { "null".to_string() };
                events.push(json!({"op": "settings",
                    "path": if ok && path != "none" { json!([path]) } else { json!([]) },
                    "args": if ok { args.map(|a| json!([a])).unwrap_or(json!([])) } else { json!([]) },
                    "options": text(opt), "config": text(conf)}));
            }
            1 if !downloads || rng.chance(1, 6) => {
                let w = if rng.chance(1, 2) { None } else { Some(rng.pick(&["/usr/bin/air", "/home/u/.local/bin/air"]).to_string()) };
                HOST.with(|h| h.borrow_mut().which = w.clone());
                events.push(json!({"op": "which", "found": w.map(|w| vec![w]).unwrap_or_default()}));
            }
            2 | 3 => {
                let ok = rng.chance(4, 5);
                let version = *rng.pick(&VERSIONS);
                let right = asset(os_name, arch_name);
                let mut names: Vec<String> =
                    OSES.iter().flat_map(|(_, o)| ARCHES.iter().map(move |(_, a)| asset(o, a))).collect();
                names.retain(|_| rng.chance(2, 3));
                names.retain(|a| *a != right);
                names.push("sha256.sum".into());
                names.push(format!("{right}.sha256"));
                if rng.chance(5, 6) {
                    names.push(right);
                }
                rng.shuffle(&mut names);
                let url = |a: &str| format!("https://example.com/{version}/{a}");
                HOST.with(|h| {
                    h.borrow_mut().release = ok.then(|| GithubRelease {
                        version: version.into(),
                        assets: names
                            .iter()
                            .map(|a| GithubReleaseAsset { name: a.clone(), download_url: url(a) })
                            .collect(),
                    })
                });
                let assets: Vec<Value> = names.iter().map(|a| json!({"name": a, "url": url(a)})).collect();
                events.push(json!({"op": "release", "ok": ok, "version": version, "assets": assets}));
            }
            4 => {
                let o = *rng.pick(&["ok", "ok", "ok", "empty", "partial", "fail"]);
                *outcome.borrow_mut() = o.into();
                events.push(json!({"op": "weather", "download": o}));
            }
            5 if rng.chance(1, 2) => {
                ext = air::__build();
                events.push(json!({"op": "restart"}));
            }
            6 => {
                // Something happens to the files
                let v = *rng.pick(&VERSIONS);
                let bin = format!("air-{v}/{}", inside(os_name, arch_name));
                match rng.below(5) {
                    0 => drop(fs::remove_dir_all(format!("air-{v}"))),
                    1 => drop(fs::remove_file(&bin)),
                    2 => put(&bin),
                    3 => put(*rng.pick(&["notes.txt", "air-old/x", "zzz/a/b"])),
                    _ => {
                        // A directory where the binary should be
                        if !Path::new(&bin).exists() {
                            let _ = fs::create_dir_all(&bin);
                        }
                    }
                }
                events.push(json!({"op": "files", "disk": disk()}));
            }
            7 if !downloads || rng.chance(1, 6) => {
                let options = guarded(|| ext.language_server_initialization_options(&id, &worktree));
                let config = guarded(|| ext.language_server_workspace_configuration(&id, &worktree));
                let text = |r: Result<Result<Option<Value>, String>, String>| match r {
                    Ok(Ok(Some(v))) => v.to_string(),
                    other => format!("{other:?}"),
                };
                events.push(json!({"op": "options", "options": text(options), "config": text(config)}));
            }
            _ => {
                HOST.with(|h| h.borrow_mut().calls.clear());
                let got = guarded(|| ext.language_server_command(&id, &worktree));
                let calls = HOST.with(|h| h.borrow().calls.clone());
                let (kind, command, args, env) = match got {
                    Ok(Ok(c)) => ("command", c.command, c.args, c.env.len()),
                    Ok(Err(e)) => ("error", e, vec![], 0),
                    Err(_) => ("panic", String::new(), vec![], 0),
                };
                events.push(json!({"op": "ask", "kind": kind, "command": command, "args": args, "env": env,
                    "calls": calls, "disk": disk()}));
            }
        }
    }
    emit(&json!({"events": events}));
}

fn serde_json_map() -> vfcommon::serde_json::Map<String, Value> {
    Default::default()
}
