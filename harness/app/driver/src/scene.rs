//! Random projects, and random runs of `air format` on them.
use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, SystemTime};
use vfcommon::{Rng, Value, bytes, json};

pub type P = Vec<String>;
pub const NAMES: [&str; 6] = ["a", "data.table", "fcase", "foo", "tribble", "zoo"];

#[derive(Clone, Debug)]
pub enum Node {
    Dir { mode: &'static str },
    File { mode: &'static str, bytes: Vec<u8>, cfg: Option<Value>, ignore: Option<Vec<String>> },
    Link { to: P },
}
use Node::*;
type Tree = BTreeMap<P, Node>;

pub fn jpath(p: &[String]) -> Value {
    Value::Array(p.iter().map(|n| bytes(n.as_bytes())).collect())
}

/// A text as the specification sees it.
pub fn decode(raw: &[u8]) -> Value {
    let Ok(s) = std::str::from_utf8(raw) else {
        let hex: String = raw.iter().map(|b| format!("{b:02x}")).collect();
        return json!({"utf8": false, "lines": [{"h": [], "t": hex, "e": ""}]});
    };
    let mut lines = Vec::new();
    let mut rest = s;
    while !rest.is_empty() {
        let (line, end, tail) = match rest.find('\n') {
            Some(i) if i > 0 && rest.as_bytes()[i - 1] == b'\r' => (&rest[..i - 1], "crlf", &rest[i + 1..]),
            Some(i) => (&rest[..i], "lf", &rest[i + 1..]),
            None => (rest, "", ""),
        };
        rest = tail;
        lines.push(match header(line) {
            Some(h) => json!({"h": [h], "t": "", "e": end}),
            None => json!({"h": [], "t": line.escape_default().to_string(), "e": end}),
        });
    }
    json!({"utf8": true, "lines": lines})
}

fn names(v: &Value) -> Option<Value> {
    match v {
        Value::Null => Some(json!([])),
        Value::String(s) => {
            let mut out = Vec::new();
            for n in s.split(", ").filter(|n| !n.is_empty()) {
                out.push(NAMES.iter().position(|x| *x == n).map_or(99, |i| i + 1));
            }
            out.sort();
            out.dedup();
            Some(json!([out]))
        }
        _ => None,
    }
}

/// The options a formatted text says it was formatted with.
pub fn header(line: &str) -> Option<Value> {
    let v: Value = serde_json::from_str(line.strip_prefix("#: ")?).ok()?;
    let o = v.as_object()?;
    if o.len() != 7 {
        return None;
    }
    Some(json!({
        "width": o.get("width")?, "indent": o.get("indent")?, "tab": o.get("tab")?, "respect": o.get("respect")?,
        "assign": o.get("assign")?.as_str()?.to_lowercase(),
        "skip": names(o.get("skip")?)?, "table": names(o.get("table")?)?,
    }))
}

fn jnode(n: &Node) -> Value {
    match n {
        Dir { mode } => json!({"kind": "dir", "mode": mode}),
        Link { to } => json!({"kind": "link", "mode": "rw", "to": jpath(to)}),
        File { mode, bytes: b, cfg, ignore } => {
            let mut v = json!({"kind": "file", "mode": mode, "text": decode(b)});
            if let Some(c) = cfg {
                v["cfg"] = c.clone();
            }
            if let Some(i) = ignore {
                v["ignore"] = Value::Array(i.iter().map(|l| bytes(l.as_bytes())).collect());
            }
            v
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------
pub const PATTERNS: [&str; 28] = [
    "a/b/x.R", "a/b/*.R", "/b/a/b", "a/a/", "b/a/b/",
    "a", "a/", "/b/", "b", "*.R", "*.r", "x.R", "!x.R", "a/**", "**/b", "b/x.R", "/b/*.r", "[xy].R", "?.R", "!b/", "/x.R",
    "# x.R", "", "a/b/", ".hid/", "!.hid.R", "!.hid/", "!.*",
];

/// What a configuration says, as the specification sees it, and its text.
pub fn config(r: &mut Rng, wild: bool) -> (Value, String) {
    let mut cfg = json!({"ok": true});
    let mut lines: Vec<String> = Vec::new();
    if r.chance(1, 3) {
        let w = if wild && r.chance(1, 3) { *r.pick(&[0, 1, 320, 321, 1000]) } else { *r.pick(&[80, 100, 60]) };
        cfg["width"] = json!(w);
        lines.push(format!("line-width = {w}"));
    }
    if r.chance(1, 3) {
        let w = if wild && r.chance(1, 3) { *r.pick(&[0, 1, 24, 25]) } else { *r.pick(&[2, 4]) };
        cfg["indent"] = json!(w);
        lines.push(format!("indent-width = {w}"));
    }
    if r.chance(1, 4) {
        let s = *r.pick(&["space", "tab"]);
        cfg["style"] = json!(s);
        lines.push(format!("indent-style = \"{s}\""));
    }
    if r.chance(1, 3) {
        let s = *r.pick(&["auto", "lf", "crlf", "native"]);
        cfg["ending"] = json!(s);
        lines.push(format!("line-ending = \"{s}\""));
    }
    if r.chance(1, 5) {
        let s = r.chance(1, 2);
        cfg["persist"] = json!(s);
        lines.push(format!("persistent-line-breaks = {s}"));
    }
    if r.chance(1, 4) {
        let s = *r.pick(&["arrow", "equal", "preserve"]);
        cfg["assign"] = json!(s);
        lines.push(format!("assignment-style = \"{s}\""));
    }
    for (key, field) in [("skip", "skip"), ("table", "table")] {
        if r.chance(1, 4) {
            let ns: Vec<usize> = (0..r.below(4)).map(|_| r.range(1, NAMES.len())).collect();
            cfg[field] = json!(ns);
            let ns: Vec<&str> = ns.iter().map(|i| NAMES[i - 1]).collect();
            lines.push(format!("{key} = {}", serde_json::to_string(&ns).unwrap()));
        }
    }
    for (key, field) in [("default-exclude", "defexclude"), ("default-table", "deftable")] {
        if r.chance(1, 4) {
            let b = r.chance(1, 3);
            cfg[field] = json!(b);
            lines.push(format!("{key} = {b}"));
        }
    }
    if r.chance(1, 2) {
        let ps: Vec<&str> = (0..r.below(4)).map(|_| *r.pick(&PATTERNS)).collect();
        cfg["exclude"] = Value::Array(ps.iter().map(|p| bytes(p.as_bytes())).collect());
        lines.push(format!("exclude = {}", serde_json::to_string(&ps).unwrap()));
    }
    if wild && r.chance(1, 8) {
        let (text, field, value) = *r.pick(&[
            ("unknown-key = 1", "ok", ""),
            ("line_width = 80", "ok", ""),
            ("exclude = \"a\"", "ok", ""),
            ("indent-style = \"tabs\"", "style", "tabs"),
            ("line-ending = \"cr\"", "ending", "cr"),
            ("assignment-style = \"left\"", "assign", "left"),
            ("persistent-line-breaks = 1", "ok", ""),
            ("line-width = \"80\"", "ok", ""),
            ("skip = \"a\"", "ok", ""),
            ("= 1", "ok", ""),
            ("line-width = 80\nline-width = 80", "ok", ""),
        ]);
        lines.retain(|l| l.split(' ').next() != text.split(' ').next());
        if field == "ok" {
            cfg["ok"] = json!(false);
        } else {
            cfg[field] = json!(value);
        }
        lines.push(text.to_string());
    }
    r.shuffle(&mut lines);
    let mut text = String::new();
    if !lines.is_empty() || r.chance(1, 2) {
        text.push_str("[format]\n");
    }
    if r.chance(1, 4) {
        text.insert_str(0, "# settings\n\n");
    }
    for l in lines {
        text.push_str(&l);
        text.push('\n');
    }
    (cfg, text)
}

fn text(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 20) {
        return b"x\xff\xfe\n".to_vec();
    }
    let mut out = Vec::new();
    let crlf = r.chance(1, 4);
    let mixed = r.chance(1, 8);
    if r.chance(1, 3) {
        let h = json!({"width": 80, "indent": 2, "tab": false, "respect": true, "assign": "Arrow", "skip": null,
            "table": if r.chance(1, 5) { "foo" } else { "fcase, tribble" }});
        out.extend_from_slice(format!("#: {h}").as_bytes());
        out.extend_from_slice(if crlf { b"\r\n" } else { b"\n" });
    }
    let n = r.below(4);
    for i in 0..n {
        let t = if r.chance(1, 30) { "SYNTAX ERROR" } else { r.pick(&["x <- 1", "", "# caf\u{e9}", "y", "a\rb"]) };
        out.extend_from_slice(t.as_bytes());
        if i + 1 < n || r.chance(4, 5) {
            let c = if mixed { r.chance(1, 2) } else { crlf };
            out.extend_from_slice(if c { b"\r\n" } else { b"\n" });
        }
    }
    out
}

fn mode(r: &mut Rng) -> &'static str {
    match r.below(30) {
        0 => "none",
        1 => "ro",
        _ => "rw",
    }
}

fn file(r: &mut Rng) -> Node {
    File { mode: mode(r), bytes: text(r), cfg: None, ignore: None }
}
fn config_node(r: &mut Rng) -> Node {
    let wild = r.chance(1, 6);
    let (cfg, text) = config(r, wild);
    File { mode: if r.chance(1, 40) { "none" } else { "rw" }, bytes: text.into_bytes(), cfg: Some(cfg), ignore: None }
}
fn ignore_node(r: &mut Rng) -> Node {
    let ls: Vec<String> = (0..r.range(1, 4)).map(|_| r.pick(&PATTERNS).to_string()).collect();
    let mut text = ls.join("\n");
    if r.chance(3, 4) {
        text.push('\n');
    }
    File { mode: "rw", bytes: text.into_bytes(), cfg: None, ignore: Some(ls) }
}
fn child(d: &[String], n: &str) -> P {
    let mut p = d.to_vec();
    p.push(n.to_string());
    p
}

const DIRS: [&str; 8] = ["a", "b", "a", "b", ".hid", "renv", "R", "cpp11.R"];
const FILES: [&str; 10] =
    ["x.R", "y.r", "x.R", "z.txt", "cpp11.R", ".hid.R", "import-standalone-s.R", "w w.R", "\u{e9}.R", "b"];

/// A file ignored by what is above the directory that is searched.
fn above() -> Tree {
    let p = |s: &str| -> P { s.split('/').map(str::to_string).collect() };
    let ls = vec!["a/b/x.R".to_string()];
    Tree::from([
        (p(".git"), Dir { mode: "rw" }),
        (p(".gitignore"), File { mode: "rw", bytes: b"a/b/x.R\n".to_vec(), cfg: None, ignore: Some(ls) }),
        (p("a"), Dir { mode: "rw" }),
        (p("a/b"), Dir { mode: "rw" }),
        (p("a/b/x.R"), File { mode: "rw", bytes: b"x\n".to_vec(), cfg: None, ignore: None }),
    ])
}

fn generate(r: &mut Rng, only: &str) -> Tree {
    let (configs, select) = (only == "config", only == "select");
    let mut t = Tree::new();
    let mut dirs: Vec<P> = vec![vec![]];
    for _ in 0..r.range(1, if select || configs { 7 } else { 5 }) {
        let d = r.pick(&dirs).clone();
        if d.len() < if select || configs { 4 } else { 3 } {
            let p = child(&d, *r.pick(&DIRS));
            if !t.contains_key(&p) {
                let m = if r.chance(1, 25) { "none" } else { "rw" };
                t.insert(p.clone(), Dir { mode: m });
                dirs.push(p);
            }
        }
    }
    let git = if select { r.chance(5, 6) } else { r.chance(1, 2) };
    for (k, d) in dirs.clone().iter().enumerate() {
        for _ in 0..r.below(4) {
            let p = child(d, *r.pick(&FILES));
            if !t.contains_key(&p) {
                t.insert(p, file(r));
            }
        }
        for n in ["air.toml", ".air.toml"] {
            if r.chance(1, if configs { 2 } else if k == 0 { 3 } else { 6 }) {
                let node = if r.chance(1, 10) { Dir { mode: "rw" } } else { config_node(r) };
                t.insert(child(d, n), node);
            }
        }
        if r.chance(1, if select { 2 } else if configs { 12 } else { 4 }) {
            t.insert(child(d, ".gitignore"), ignore_node(r));
        }
        // `.ignore` files are nobody's business
        if r.chance(1, 20) {
            t.insert(child(d, ".ignore"), File { mode: "rw", bytes: b"*\n".to_vec(), cfg: None, ignore: None });
        }
        if git && r.chance(if k == 0 { 2 } else { 1 }, if k == 0 { 3 } else { 6 }) {
            let node = if r.chance(1, 4) {
                File { mode: "rw", bytes: vec![], cfg: None, ignore: None }
            } else {
                Dir { mode: "rw" }
            };
            let dir = matches!(node, Dir { .. });
            t.insert(child(d, ".git"), node);
            if dir && r.chance(1, 3) {
                t.insert(child(&child(d, ".git"), "info"), Dir { mode: "rw" });
                t.insert(child(&child(&child(d, ".git"), "info"), "exclude"), ignore_node(r));
            }
        }
    }
    // Links, to files (or to nothing) of the same directory
    for _ in 0..r.below(3) {
        if !r.chance(1, 3) {
            continue;
        }
        let d = r.pick(&dirs).clone();
        let p = child(&d, *r.pick(&["l.R", "m.r", "l.txt"]));
        let to: Vec<P> = t
            .iter()
            .filter(|(q, n)| q.len() == d.len() + 1 && q.starts_with(&d) && matches!(n, File { cfg: None, ignore: None, .. }))
            .map(|(q, _)| q.clone())
            .collect();
        let to = if to.is_empty() || r.chance(1, 6) { child(&d, "nothing") } else { r.pick(&to).clone() };
        t.entry(p).or_insert(Link { to });
    }
    t
}

// ---------------------------------------------------------------------------------------------------------------
fn real(root: &Path, p: &[String]) -> PathBuf {
    let mut out = root.to_path_buf();
    out.extend(p);
    out
}
fn bits(mode: &str, dir: bool) -> u32 {
    match (mode, dir) {
        ("none", _) => 0,
        ("ro", _) => 0o444,
        (_, true) => 0o755,
        _ => 0o644,
    }
}
fn chmod(p: &Path, m: u32) {
    fs::set_permissions(p, fs::Permissions::from_mode(m)).unwrap();
}
fn put(root: &Path, p: &P, n: &Node) {
    let q = real(root, p);
    match n {
        Dir { .. } => fs::create_dir(&q).unwrap(),
        File { bytes, .. } => fs::write(&q, bytes).unwrap(),
        Link { to } => std::os::unix::fs::symlink(to.last().unwrap(), &q).unwrap(),
    }
}
fn old() -> SystemTime {
    SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000)
}
/// Permissions as they are to be during a run, or as they have to be between runs.
fn guard(root: &Path, t: &Tree, on: bool) {
    let set = |p: &P, n: &Node| match n {
        Dir { mode } => chmod(&real(root, p), if on { bits(mode, true) } else { 0o755 }),
        File { mode, .. } => {
            let q = real(root, p);
            if on {
                fs::File::options().append(true).open(&q).unwrap().set_modified(old()).unwrap();
                chmod(&q, bits(mode, false));
            } else {
                chmod(&q, 0o644);
            }
        }
        Link { .. } => {}
    };
    if on {
        t.iter().rev().for_each(|(p, n)| set(p, n));
    } else {
        t.iter().for_each(|(p, n)| set(p, n));
    }
}
/// Everything there is: texts and times of files, what a link says.
fn snapshot(root: &Path) -> BTreeMap<P, (String, Vec<u8>, bool)> {
    fn walk(d: &Path, p: &P, out: &mut BTreeMap<P, (String, Vec<u8>, bool)>) {
        for e in fs::read_dir(d).unwrap() {
            let e = e.unwrap();
            let q = child(p, &e.file_name().to_string_lossy());
            let ft = e.file_type().unwrap();
            let path = e.path();
            if ft.is_dir() {
                out.insert(q.clone(), ("dir".into(), vec![], false));
                walk(&path, &q, out);
            } else if ft.is_symlink() {
                let to = fs::read_link(&path).unwrap();
                out.insert(q, ("link".into(), to.to_string_lossy().as_bytes().to_vec(), false));
            } else {
                let touched = fs::metadata(&path).unwrap().modified().unwrap() != old();
                out.insert(q, ("file".into(), fs::read(&path).unwrap(), touched));
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(root, &vec![], &mut out);
    out
}

/// A way of saying `p` when standing in `cwd`.
fn say(r: &mut Rng, root: &Path, cwd: &P, p: &P, dir: bool) -> String {
    let mut parts: Vec<String> = Vec::new();
    let absolute = r.chance(1, 4);
    if absolute {
        parts.push(root.to_string_lossy().to_string());
        parts.extend(p.iter().cloned());
    } else {
        let mut k = cwd.iter().zip(p).take_while(|(a, b)| a == b).count();
        if r.chance(1, 5) {
            k = r.below(k + 1);
        }
        parts.extend((k..cwd.len()).map(|_| "..".to_string()));
        parts.extend(p[k..].iter().cloned());
        if parts.is_empty() {
            parts.push(".".into());
        }
    }
    if r.chance(1, 5) {
        let at = r.range(1, parts.len());
        let (x, y) = *r.pick(&[(".", ""), ("nope", ".."), ("a", "..")]);
        if !y.is_empty() {
            parts.insert(at, y.into());
        }
        parts.insert(at, x.into());
    }
    let mut s = parts.join("/");
    if r.chance(1, 6) && !absolute {
        s.insert_str(0, "./");
    }
    if dir && r.chance(1, 3) || r.chance(1, 30) {
        s.push('/');
    }
    s
}

fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut cs = s.chars();
    while let Some(c) = cs.next() {
        if c == '\u{1b}' {
            for c in cs.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// A path air has written, below the root.
fn heard(root: &Path, cwd: &P, s: &str) -> Value {
    let full = real(root, cwd).join(s);
    let mut out: P = Vec::new();
    match full.strip_prefix(root) {
        Ok(rest) => {
            for c in rest.components() {
                match c {
                    std::path::Component::ParentDir => {
                        out.pop();
                    }
                    c => out.push(c.as_os_str().to_string_lossy().to_string()),
                }
            }
            jpath(&out)
        }
        Err(_) => json!([bytes(format!("?{s}").as_bytes())]),
    }
}

struct Run {
    stdin: Option<Vec<u8>>,
    check: bool,
    force: bool,
    args: Vec<P>,
    texts: Vec<String>,
    cwd: P,
}

fn execute(air: &str, root: &Path, run: &Run) -> (i32, Vec<u8>, String) {
    let mut cmd = Command::new(air);
    cmd.arg("format").current_dir(real(root, &run.cwd));
    cmd.env_remove("NO_COLOR").env("GIT_CONFIG_GLOBAL", "/dev/null").env_remove("XDG_CONFIG_HOME");
    if run.check {
        cmd.arg("--check");
    }
    if run.force {
        cmd.arg("--force");
    }
    if run.stdin.is_some() {
        cmd.arg("--stdin-file-path");
    }
    cmd.args(&run.texts);
    let mut proc =
        cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("air runs");
    let mut pipe = proc.stdin.take().unwrap();
    let data = run.stdin.clone().unwrap_or_default();
    let writer = std::thread::spawn(move || {
        let _ = pipe.write_all(&data);
    });
    let out = proc.wait_with_output().unwrap();
    let _ = writer.join();
    (out.status.code().unwrap_or(-1), out.stdout, plain(&String::from_utf8_lossy(&out.stderr)))
}

/// A project of one configuration file and a text from stdin.
pub fn one_config(r: &mut Rng, air: &str, k: usize, cfg: Value, text: &[u8]) -> Value {
    let root = std::env::current_dir().unwrap().join(format!("c{k}"));
    fs::create_dir(&root).unwrap();
    let mut t = Tree::new();
    let name = *r.pick(&["air.toml", "air.toml", ".air.toml"]);
    t.insert(vec![name.into()], File { mode: "rw", bytes: text.to_vec(), cfg: Some(cfg), ignore: None });
    for (p, n) in &t {
        put(&root, p, n);
    }
    let nodes: Vec<Value> = t.iter().map(|(p, n)| json!([jpath(p), jnode(n)])).collect();
    let p: P = r.pick(&[vec!["x.R"], vec!["x.R"], vec!["a", "x.R"], vec!["renv", "x.R"]]).iter().map(|s| s.to_string()).collect();
    let said = p.join("/");
    let input = r.pick(&["x\r\ny\n", "x\ny\r\n", "x", ""]).as_bytes().to_vec();
    let run = Run { stdin: Some(input), check: false, force: false, args: vec![p], texts: vec![said], cwd: vec![] };
    let event = observe(air, &root, &mut t, run);
    fs::remove_dir_all(&root).unwrap();
    json!({"nodes": nodes, "events": [event]})
}

fn one(r: &mut Rng, air: &str, root: &Path, t: &mut Tree, only: &str) -> Value {
    let entries: Vec<P> = t.keys().cloned().collect();
    let open: Vec<P> = std::iter::once(vec![])
        .chain(entries.iter().filter(|p| {
            (1..=p.len()).all(|k| matches!(t.get(&p[..k].to_vec()), Some(Dir { mode: "rw" })))
        }).cloned())
        .collect();
    let stdin = match only {
        "stdin" => true,
        "check" | "write" => false,
        _ => r.chance(1, 4),
    };
    let check = match only {
        "check" => r.chance(9, 10),
        "write" => r.chance(1, 10),
        _ => r.chance(1, 2),
    };
    let cwd = if r.chance(1, 2) { vec![] } else { r.pick(&open).clone() };
    let mut args = Vec::new();
    let n = if stdin { 1 } else { *r.pick(&[1, 1, 1, 2, 2, 3]) };
    let dirs: Vec<P> = entries.iter().filter(|p| matches!(t[*p], Dir { .. })).cloned().collect();
    for _ in 0..n {
        args.push(match r.below(8) {
            0 | 1 if !stdin => vec![],
            2 if stdin => child(r.pick(&open).as_slice(), *r.pick(&["new.R", "new.txt"])),
            2 if r.chance(1, 4) => child(r.pick(&open).as_slice(), *r.pick(&["nope.R", "nope"])),
            3 | 4 if !stdin && !dirs.is_empty() => r.pick(&dirs).clone(),
            _ if entries.is_empty() => vec!["nope.R".to_string()],
            _ => r.pick(&entries).clone(),
        });
    }
    if stdin && args[0].is_empty() {
        args[0] = vec!["x.R".into()];
    }
    let texts =
        args.iter().map(|p| say(r, root, &cwd, p, p.is_empty() || matches!(t.get(p), Some(Dir { .. })))).collect();
    let input = if stdin { Some(if r.chance(1, 3) && matches!(t.get(&args[0]), Some(File { .. })) {
        match &t[&args[0]] { File { bytes, .. } => bytes.clone(), _ => vec![] }
    } else { text(r) }) } else { None };
    let run = Run { stdin: input, check, force: r.chance(1, 6), args, texts, cwd };
    observe(air, root, t, run)
}

fn observe(air: &str, root: &Path, t: &mut Tree, run: Run) -> Value {
    vfcommon::at(&format!("{:?} in {:?}: {:?}", run.texts, run.cwd, t));
    let before = snapshot(root);
    guard(root, t, true);
    let (exit, out, err) = execute(air, root, &run);
    guard(root, t, false);
    let after = snapshot(root);

    let mut changed = Vec::new();
    let mut touched = Vec::new();
    let mut moved = 0;
    for (p, (kind, text, hot)) in &after {
        match before.get(p) {
            Some((k, _, _)) if k != kind => moved += 1,
            Some((_, old, _)) => {
                if old != text {
                    changed.push(json!([jpath(p), decode(text)]));
                    if let Some(File { bytes, .. }) = t.get_mut(p) {
                        *bytes = text.clone();
                    }
                }
                if *hot {
                    touched.push(jpath(p));
                }
            }
            None => moved += 1,
        }
    }
    moved += before.keys().filter(|p| !after.contains_key(*p)).count();

    let hard = err.contains("air failed");
    let mut listed = Vec::new();
    let mut errors = Vec::new();
    let mut odd = Vec::new();
    for line in err.lines().filter(|l| !l.trim().is_empty() && !hard) {
        let line = line.trim_start();
        if let Some(p) = line.strip_prefix("Would reformat: ") {
            listed.push(heard(root, &run.cwd, p));
        } else if let Some(rest) = line.strip_prefix("ERROR ") {
            let mut found = None;
            for (kind, head) in [("search", "Failed to format "), ("read", "Failed to read "), ("write", "Failed to write ")] {
                if let Some(tail) = rest.strip_prefix(head) {
                    let (p, msg) = tail.split_once(": ").unwrap_or((tail, ""));
                    let kind = if kind == "search" && msg == "toy syntax error" { "syntax" } else { kind };
                    found = Some(json!({"path": heard(root, &run.cwd, p), "kind": kind}));
                }
            }
            if found.is_none() && rest.starts_with("Encountered error: ") {
                found = Some(json!({"path": [], "kind": "search"}));
            }
            errors.push(found.unwrap_or(json!({"path": [], "kind": "other"})));
        } else {
            odd.push(line.to_string());
        }
    }
    let mut event = json!({
        "op": "run", "mode": if run.check { "check" } else { "write" }, "force": run.force, "stdin": run.stdin.is_some(),
        "args": run.args.iter().map(|p| jpath(p)).collect::<Vec<_>>(), "said": run.texts,
        "got": {
            "exit": exit, "hard": hard, "listed": listed, "errors": errors, "odd": odd, "changed": changed,
            "touched": touched, "moved": moved, "out": decode(&out),
        },
    });
    if let Some(s) = &run.stdin {
        event["text"] = decode(s);
    }
    event
}

fn edit(r: &mut Rng, root: &Path, t: &mut Tree) -> Option<Value> {
    let files: Vec<P> = t.iter().filter(|(_, n)| matches!(n, File { .. })).map(|(p, _)| p.clone()).collect();
    if files.is_empty() {
        return None;
    }
    let p = r.pick(&files).clone();
    let node = match &t[&p] {
        File { cfg: Some(_), .. } => config_node(r),
        File { ignore: Some(_), .. } => ignore_node(r),
        File { mode, .. } if p.last().unwrap() != ".git" => {
            File { mode: *mode, bytes: text(r), cfg: None, ignore: None }
        }
        _ => return None,
    };
    let linked = t.values().any(|n| matches!(n, Link { to } if *to == p));
    if r.chance(1, 4) && !linked {
        fs::remove_file(real(root, &p)).unwrap();
        t.remove(&p);
        return Some(json!({"op": "del", "path": jpath(&p)}));
    }
    put(root, &p, &node);
    let v = json!({"op": "edit", "path": jpath(&p), "node": jnode(&node)});
    t.insert(p, node);
    Some(v)
}

pub fn runs(air: &str, only: &str, n: usize, shard: u64) {
    let salt: u64 = only.bytes().map(u64::from).sum();
    let mut r = Rng::from_env(7000 + salt + 1_000_000 * shard);
    let base = std::env::current_dir().unwrap();
    for k in 0..n {
        let root = base.join(format!("s{k}"));
        fs::create_dir(&root).unwrap();
        let mut t = if k == 0 && only != "stdin" { above() } else { generate(&mut r, only) };
        for (p, n) in &t {
            put(&root, p, n);
        }
        let nodes: Vec<Value> = t.iter().map(|(p, n)| json!([jpath(p), jnode(n)])).collect();
        let mut events = Vec::new();
        if k == 0 && only != "stdin" {
            for check in [true, false] {
                let run = Run {
                    stdin: None, check, force: false, args: vec![vec!["a".into()]], texts: vec!["a".into()], cwd: vec![],
                };
                events.push(observe(air, &root, &mut t, run));
            }
        }
        for _ in 0..r.range(1, 4) {
            events.push(one(&mut r, air, &root, &mut t, only));
            if r.chance(1, 2) {
                events.extend(edit(&mut r, &root, &mut t));
            }
        }
        vfcommon::emit(&json!({"nodes": nodes, "events": events}));
        fs::remove_dir_all(&root).unwrap();
    }
}
