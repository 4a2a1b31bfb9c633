//! Drives xtask's glue. Runs in a scratch directory as an unprivileged user.
use std::fs;
use std::io::{Read, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};

use vfcommon::{bytes, emit, guarded, json, Rng, Value};
use xtask::glue::{fs2, pushd, pushenv, rm_rf};
use xtask::run;

const VARS: [&str; 2] = ["VF_A", "VF_B"];

/// Another process: reports how it was called, and prints what it was told to.
fn helper() {
    let at = PathBuf::from(std::env::var_os("VF_HELPER").unwrap());
    if at.join("stream").exists() {
        let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
        std::io::copy(&mut i, &mut o).unwrap();
        return;
    }
    let mut stdin = vec![];
    std::io::stdin().read_to_end(&mut stdin).unwrap();
    let args: Vec<Value> = std::env::args_os().skip(1).map(|a| bytes(a.as_bytes())).collect();
    let seen = json!({"args": args, "cwd": std::env::current_dir().unwrap().to_string_lossy(), "env": env(), "stdin": bytes(&stdin)});
    fs::write(at.join("seen"), seen.to_string()).unwrap();
    std::io::stdout().write_all(&fs::read(at.join("out")).unwrap()).unwrap();
    std::io::stdout().flush().unwrap();
    std::process::exit(fs::read_to_string(at.join("exit")).unwrap().parse().unwrap());
}

fn env() -> Value {
    let one = |v: &str| match std::env::var(v) {
        Ok(x) => json!([x]),
        Err(_) => json!([]),
    };
    json!({"A": one(VARS[0]), "B": one(VARS[1])})
}

struct Scoped<'a> {
    rng: &'a mut Rng,
    base: PathBuf,
    at: PathBuf,
    helper: String,
    events: Vec<Value>,
    left: usize,
    depth: usize,
}

fn comps(base: &Path, path: &Path) -> Value {
    match path.strip_prefix(base) {
        Ok(rel) => json!(rel.components().map(|c| c.as_os_str().to_string_lossy().to_string()).collect::<Vec<_>>()),
        Err(_) => json!(["outside"]),
    }
}

impl Scoped<'_> {
    fn snap(&self) -> Value {
        let cwd = std::env::current_dir().map(|d| comps(&self.base, &d)).unwrap_or(json!(["gone"]));
        json!({"cwd": cwd, "env": env()})
    }
    fn log(&mut self, mut e: Value) {
        e["now"] = self.snap();
        self.events.push(e);
    }
    fn scope(&mut self) {
        while self.left > 0 {
            self.left -= 1;
            match self.rng.below(10) {
                0 | 1 if self.depth < 6 => {
                    let (abs, path) = self.dir();
                    let p = if abs { self.base.join(path.join("/")) } else { PathBuf::from(path.join("/")) };
                    match guarded(|| pushd(p)) {
                        Ok(guard) => {
                            self.log(json!({"op": "pushd", "abs": abs, "path": path, "ok": true}));
                            self.depth += 1;
                            self.scope();
                            self.depth -= 1;
                            drop(guard);
                            self.log(json!({"op": "leave"}));
                        }
                        Err(_) => self.log(json!({"op": "pushd", "abs": abs, "path": path, "ok": false})),
                    }
                }
                2 | 3 if self.depth < 6 => {
                    let v = self.rng.below(2);
                    let x = *self.rng.pick(&["", "1", "two words", "é"]);
                    let guard = pushenv(VARS[v], x);
                    self.log(json!({"op": "pushenv", "var": (["A", "B"][v]), "value": x}));
                    self.depth += 1;
                    self.scope();
                    self.depth -= 1;
                    drop(guard);
                    self.log(json!({"op": "leave"}));
                }
                4 => {
                    // A place where panics end
                    let depth = self.depth;
                    if guarded(|| self.scope()).is_err() {
                        self.depth = depth;
                        self.log(json!({"op": "unwind", "to": depth}));
                    }
                }
                5 if self.depth > 0 && self.rng.chance(1, 3) => panic!("on purpose"),
                6 if self.depth > 0 => return,
                7 => self.run(),
                _ => {}
            }
        }
    }
    fn dir(&mut self) -> (bool, Vec<&'static str>) {
        let abs = self.rng.chance(1, 4);
        let names: &[&[&str]] = if abs {
            &[&["a"], &["a", "b"], &["c"], &["a", "..", "c"], &["nowhere"], &["a", "nowhere"]]
        } else {
            &[&["a"], &["b"], &["c"], &["a", "b"], &["."], &["nowhere"]]
        };
        let mut path: Vec<&'static str> = self.rng.pick(names).to_vec();
        // One up, unless that leaves the base
        if !abs && self.rng.chance(1, 3) && std::env::current_dir().is_ok_and(|d| d != self.base && d.starts_with(&self.base)) {
            path = vec![".."];
            if self.rng.chance(1, 2) {
                path.push("a");
            }
        }
        (abs, path)
    }
    fn run(&mut self) {
        let mut text = String::new();
        for _ in 0..self.rng.below(6) {
            text += self.rng.pick::<&str>(&[" ", "\t", "\n", "  ", "'", "'", "a", "--b=c", "é", "\\", "\"", "$HOME", "*", "\u{b}", "\u{a0}"]);
        }
        let cmd = format!("{} {text}", self.helper);
        let out: Vec<u8> = (0..self.rng.below(5))
            .flat_map(|_| self.rng.pick(&[&b" "[..], b"\n", b"\r\n", b"ok", b"a b", b"\xc3\xa9", b"\xff", b"\x0b", b"\x0c"]).to_vec())
            .collect();
        let exit = *self.rng.pick(&[0, 0, 0, 1, 101]);
        let stdin: Option<Vec<u8>> = if self.rng.chance(1, 2) {
            None
        } else {
            Some((0..self.rng.below(5)).map(|_| *self.rng.pick(b"ab \n\xff")).collect())
        };
        fs::write(self.at.join("out"), &out).unwrap();
        fs::write(self.at.join("exit"), exit.to_string()).unwrap();
        let _ = fs::remove_file(self.at.join("seen"));
        let got = guarded(|| match &stdin {
            None => run!("{}", cmd; echo = false),
            Some(s) => run!("{}", cmd; <s),
        });
        let seen: Value = fs::read_to_string(self.at.join("seen"))
            .ok()
            .and_then(|s| vfcommon::serde_json::from_str(&s).ok())
            .map(|mut s: Value| {
                s["cwd"] = comps(&self.base, Path::new(s["cwd"].as_str().unwrap()));
                s
            })
            .unwrap_or(json!({"args": [], "cwd": ["not called"], "env": {"A": [], "B": []}, "stdin": []}));
        let (ok, ret) = match got {
            Ok(Ok(s)) => (true, bytes(s.as_bytes())),
            _ => (false, json!([])),
        };
        // The first word is the helper itself
        self.log(json!({"op": "run", "text": bytes(text.as_bytes()), "out": bytes(&out), "utf8": std::str::from_utf8(&out).is_ok(),
            "exit": exit, "stdin": stdin.map(|s| bytes(&s)).unwrap_or(json!([])), "ok": ok, "ret": ret, "seen": seen}));
    }
}

fn scopes(n: usize) {
    let base = std::env::current_dir().unwrap().canonicalize().unwrap().join("base");
    let at = base.parent().unwrap().join("helper-files");
    fs::create_dir_all(&at).unwrap();
    for d in ["a/b", "c"] {
        fs::create_dir_all(base.join(d)).unwrap();
    }
    let helper = base.parent().unwrap().join("glue_helper");
    fs::copy(std::env::current_exe().unwrap(), &helper).unwrap();
    fs::set_permissions(&helper, fs::Permissions::from_mode(0o755)).unwrap();
    std::env::set_var("VF_HELPER", &at);
    for e in 0..n {
        vfcommon::at(&format!("scopes {e}"));
        let (base, at, helper) = (base.clone(), at.clone(), helper.to_string_lossy().to_string());
        // The stacks belong to a thread
        let r = std::thread::spawn(move || {
            let mut rng = Rng::from_env(0x61 + e as u64 * 7919);
            std::env::set_current_dir(&base).unwrap();
            let mut start = json!({});
            for (v, name) in VARS.iter().zip(["A", "B"]) {
                if rng.chance(1, 2) {
                    std::env::set_var(v, "start");
                    start[name] = json!(["start"]);
                } else {
                    std::env::remove_var(v);
                    start[name] = json!([]);
                }
            }
            let left = rng.range(4, 24);
            let mut s = Scoped { rng: &mut rng, base, at, helper, events: vec![json!({"op": "start", "env": start})], left, depth: 0 };
            while s.left > 0 {
                if guarded(|| s.scope()).is_err() {
                    s.depth = 0;
                    s.log(json!({"op": "unwind", "to": 0}));
                }
            }
            emit(&json!({"events": s.events}));
        })
        .join();
        if r.is_err() {
            emit(&json!({"events": [{"op": "panic"}]}));
        }
    }
    // More than pipes hold, both ways at the same time
    fs::write(at.join("stream"), "").unwrap();
    let text = "0123456789abcdef".repeat(1 << 16);
    vfcommon::at("a megabyte through a process");
    let got = guarded(|| run!("{}", helper.display(); <text.as_bytes()));
    let same = matches!(got, Ok(Ok(s)) if s == text);
    emit(&json!({"events": [{"op": "start", "env": {"A": [], "B": []}}, {"op": "stream", "same": same}]}));
}

// ---- files ------------------------------------------------------------------------------------
fn scan(root: &Path, rel: &mut Vec<String>, out: &mut Vec<Value>) {
    let Ok(dir) = fs::read_dir(root) else { return };
    for e in dir {
        let e = e.unwrap();
        rel.push(e.file_name().to_string_lossy().to_string());
        let t = e.file_type().unwrap();
        if t.is_symlink() {
            out.push(json!({"path": rel, "kind": "link", "content": fs::read_link(e.path()).unwrap().file_name().unwrap().to_string_lossy()}));
        } else if t.is_dir() {
            out.push(json!({"path": rel, "kind": "dir", "content": ""}));
            scan(&e.path(), rel, out);
        } else {
            out.push(json!({"path": rel, "kind": "file", "content": fs::read_to_string(e.path()).unwrap()}));
        }
        rel.pop();
    }
}

fn files(n: usize) {
    let mut rng = Rng::from_env(0xF11E);
    let home = std::env::current_dir().unwrap();
    let kept = home.join("kept");
    for ep in 0..n {
        vfcommon::at(&format!("files {ep}"));
        let root = home.join("tree");
        let _ = fs::remove_dir_all(&root);
        fs::create_dir_all(&root).unwrap();
        fs::create_dir_all(&kept).unwrap();
        fs::write(kept.join("file"), "kept").unwrap();
        fs::write(home.join("keptfile"), "kept").unwrap();
        let names: [&[&str]; 6] = [&["a"], &["b"], &["a", "a"], &["a", "b"], &["b", "a"], &["a", "b", "a"]];
        let link = |p: &[&str]| (1..=p.len()).any(|k| fs::symlink_metadata(root.join(p[..k].join("/"))).is_ok_and(|m| m.is_symlink()));
        let mut events = vec![];
        for _ in 0..rng.range(3, 12) {
            let p = *rng.pick(&names);
            let q = *rng.pick(&names);
            let (pp, qq) = (root.join(p.join("/")), root.join(q.join("/")));
            // Links are only removed
            if p.len() > 1 && link(&p[..p.len() - 1]) {
                continue;
            }
            let op = rng.below(9);
            if link(p) && op < 6 || (op == 2 && (link(q) || p == q)) {
                continue;
            }
            let content = *rng.pick(&["", "x", "é\n"]);
            let named = |r: &Result<(), String>, path: &Path| match r {
                Ok(()) => true,
                Err(e) => e.contains(&path.display().to_string()),
            };
            let text = |r: Result<(), xtask::Error>| r.map_err(|e| format!("{e:#}"));
            let (mut e, r, path) = match op {
                0 | 1 => (json!({"op": "write", "content": content}), text(fs2::write(&pp, content)), &pp),
                2 => (json!({"op": "copy", "to": q}), text(fs2::copy(&pp, &qq).map(|_| ())), &pp),
                3 => (json!({"op": "remove-file"}), text(fs2::remove_file(&pp)), &pp),
                4 => (json!({"op": "remove-dir"}), text(fs2::remove_dir_all(&pp)), &pp),
                5 => (json!({"op": "make-dirs"}), text(fs2::create_dir_all(&pp)), &pp),
                6 => {
                    if fs::symlink_metadata(&pp).is_ok() {
                        continue;
                    }
                    let target = *rng.pick(&["kept", "keptfile", "nowhere"]);
                    let r = symlink(home.join(target), &pp).map_err(|_| pp.display().to_string());
                    (json!({"op": "link", "target": target}), r, &pp)
                }
                _ => (json!({"op": "rm-rf"}), text(rm_rf(&pp)), &pp),
            };
            let mut tree = vec![];
            scan(&root, &mut vec![], &mut tree);
            e["path"] = json!(p);
            e["ok"] = json!(r.is_ok());
            e["named"] = json!(named(&r, path));
            e["tree"] = json!(tree);
            e["kept"] = json!(fs::read_to_string(kept.join("file")).is_ok() && fs::read_to_string(home.join("keptfile")).is_ok());
            // Reading agrees with what is there
            let read = fs2::read_to_string(&pp);
            e["read"] = match &read {
                Ok(s) => json!([s]),
                Err(err) if format!("{err:#}").contains(&pp.display().to_string()) => json!([]),
                Err(_) => json!(["path not named"]),
            };
            e["list"] = match fs2::read_dir(&pp) {
                Ok(d) => {
                    let mut names: Vec<String> = d.map(|x| x.unwrap().file_name().to_string_lossy().to_string()).collect();
                    names.sort();
                    json!([names])
                }
                Err(err) if format!("{err:#}").contains(&pp.display().to_string()) => json!([]),
                Err(_) => json!([["path not named"]]),
            };
            events.push(e);
        }
        emit(&json!({"events": events}));
    }
}

/// Generated code is formatted by whatever `rustfmt` is on the PATH: a stand-in that passes it through.
fn reformat(n: usize) {
    let mut rng = Rng::from_env(0xF0);
    let home = std::env::current_dir().unwrap();
    let bin = home.join("bin");
    fs::create_dir_all(&bin).unwrap();
    let fmt = bin.join("rustfmt");
    fs::write(&fmt, "#!/bin/sh\necho \"$RUSTUP_TOOLCHAIN\" >> \"$VF_LOG\"\nif [ \"$1\" = --version ]; then echo \"rustfmt 1.8.0-$VF_CHANNEL\"; else cat; exit $VF_EXIT; fi\n").unwrap();
    fs::set_permissions(&fmt, fs::Permissions::from_mode(0o755)).unwrap();
    let path = std::env::var("PATH").unwrap();
    std::env::set_var("PATH", format!("{}:{path}", bin.display()));
    let log = home.join("log");
    std::env::set_var("VF_LOG", &log);
    for _ in 0..n {
        let text: String = (0..rng.below(6)).map(|_| *rng.pick(&["fn x() {}", "\n", "é", " ", "// c"])).collect();
        let (channel, exit) = (*rng.pick(&["stable", "stable", "nightly"]), *rng.pick(&["0", "0", "1"]));
        std::env::set_var("VF_CHANNEL", channel);
        std::env::set_var("VF_EXIT", exit);
        let before = *rng.pick(&["", "nightly"]);
        if before.is_empty() {
            std::env::remove_var("RUSTUP_TOOLCHAIN");
        } else {
            std::env::set_var("RUSTUP_TOOLCHAIN", before);
        }
        let _ = fs::remove_file(&log);
        let how = rng.below(3);
        let got = guarded(|| match how {
            0 => xtask::reformat(&text),
            1 => xtask::reformat_without_preamble(&text),
            _ => xtask::reformat_with_command(&text, "cargo it"),
        });
        let (ok, ret) = match got {
            Ok(Ok(s)) => (true, bytes(s.as_bytes())),
            _ => (false, json!([])),
        };
        let used = fs::read_to_string(&log).unwrap_or_default();
        emit(&json!({"events": [{"op": "reformat", "how": how, "text": bytes(text.as_bytes()), "stable": channel == "stable", "exit": exit,
            "ok": ok, "ret": ret, "toolchains": used.lines().all(|l| l == "stable"),
            "restored": std::env::var("RUSTUP_TOOLCHAIN").unwrap_or_default() == before,
            "preamble": bytes(format!("//! {}\n\n", xtask::PREAMBLE).as_bytes()),
            "command": bytes(b"//! This is a generated file. Don't modify it by hand! Run 'cargo it' to re-generate the file.\n\n")}]}));
    }
}

fn main() {
    if std::env::args_os().next().is_some_and(|a| a.as_bytes().ends_with(b"glue_helper")) {
        return helper();
    }
    vfcommon::init(60);
    let args: Vec<String> = std::env::args().collect();
    let n = args[2].parse().unwrap();
    match args[1].as_str() {
        "scopes" => scopes(n),
        "files" => files(n),
        "reformat" => reformat(n),
        other => panic!("unknown mode {other}"),
    }
}
