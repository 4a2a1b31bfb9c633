use crate::file_patterns::FilePatterns;
use crate::settings::{DefaultExcludePatterns, DefaultIncludePatterns, ExcludePatterns};
use std::path::PathBuf;
use vfcommon::{Rng, Value, at, bytes, emit, from_codes, guarded, json, read_ndjson};

const ROOTS: &[&str] = &["/w", "/", "/w/x y", "/a/d", "/d"];

fn join(root: &str, names: &[String]) -> PathBuf {
    let mut p = PathBuf::from(root);
    p.extend(names);
    p
}
fn names(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(from_codes).collect()
}

pub fn replay(file: &str) {
    for case in read_ndjson(file) {
        let lines = names(&case["lines"]);
        at(&format!("{lines:?}"));
        for root in ROOTS {
            let res = guarded(|| {
                let f = FilePatterns::try_from_iter(root, lines.iter().map(|s| s.as_str())).map_err(|e| e.to_string())?;
                let x = ExcludePatterns::try_from_iter(root, lines.iter().map(|s| s.as_str())).map_err(|e| e.to_string())?;
                for q in case["paths"].as_array().unwrap() {
                    let ns = names(&q["path"]);
                    for p in [join(root, &ns), join("", &ns)] {
                        let got = json!([f.matched(&p, false).is_some(), f.matched(&p, true).is_some(),
                            x.matched_path_or_any_parents(&p, false).is_some(), x.matched_path_or_any_parents(&p, true).is_some()]);
                        if got != q["r"] {
                            emit(&json!({"lines": lines, "root": root, "path": p.to_string_lossy(), "got": got, "want": q["r"],
                                "order": "file, directory, file or its parents, directory or its parents"}));
                        }
                    }
                }
                // The root itself is not subject to its patterns
                for p in [PathBuf::from(root), PathBuf::new()] {
                    if f.matched(&p, true).is_some() || f.matched_path_or_any_parents(&p, true).is_some() {
                        emit(&json!({"lines": lines, "root": root, "got": "the root itself is matched"}));
                    }
                }
                Ok::<_, String>(())
            });
            match res {
                Ok(Ok(())) => {}
                Ok(Err(e)) | Err(e) => emit(&json!({"lines": lines, "root": root, "error": e})),
            }
        }
    }
}

const PARTS: &[&str] = &[
    "a", "d", "a.R", "b.R", "*", "*.R", "?", "??", "*.*", "a*", "*a*", "[ab]", "[ab].R", "a?R", "**", "R", "file.R", "renv", "*.[Rr]", "é", "**.R",
    "a**", "-", ".git", "import-*-b.R", "日本", " ", "*d*a*",
];
const NAMES: &[&str] = &[
    "a", "d", "a.R", "b.R", "ab", "ad.R", "R", "file.R", "renv", "b.r", "é", "日本", ".git", "x", "dxa", "aXR", "import-a-b.R", "a b", "-", ".R", "c.py", " ",
];
const BUILTIN: &[&str] = &[
    ".git", "renv", "revdep", "cpp11.R", "RcppExports.R", "extendr-wrappers.R", "import-standalone-.R", "import-standalone-types-check.R", "a.R", "a.r",
    "a.,", "a.Rmd", "R", "r", ".R", ".r", "a.R.txt", "cpp11.r", "Cpp11.R", "renv.R", "xrenv", "renv ", "activate.R", "import-standalone-x.r", "rcppexports.R",
    "cpp11.Rx", "xcpp11.R", "a.RR", "a.[R", "import-standalone-é.R", "git", ".github", "revdeps", "a.q", "a.py", "日本.R", "extendr-wrappers.r", "a.S",
];

fn some_path(rng: &mut Rng, pool: &[&str], max: usize) -> Vec<String> {
    (0..rng.range(1, max)).map(|_| rng.pick(pool).to_string()).collect()
}

pub fn trace(n: usize) {
    let mut rng = Rng::from_env(41);
    for _ in 0..n {
        let root = *rng.pick(ROOTS);
        let np = rng.range(2, PARTS.len());
        let off = rng.below(PARTS.len());
        let parts: Vec<&str> = (0..np).map(|i| PARTS[(i * 7 + off) % PARTS.len()]).collect();
        let lines: Vec<String> = (0..rng.below(5))
            .map(|_| {
                let mut l = String::new();
                if rng.chance(1, 6) {
                    l.push('!');
                }
                if rng.chance(1, 4) {
                    l.push('/');
                }
                let k = rng.range(1, 3);
                for j in 0..k {
                    if j > 0 {
                        l.push('/');
                    }
                    let p: &str = if rng.chance(1, 3) { *rng.pick(NAMES) } else { *rng.pick(&parts) };
                    // Trailing spaces are trimmed: keep names made of them out of the way
                    l.push_str(if p == " " { "a" } else { p });
                }
                if rng.chance(1, 4) {
                    l.push('/');
                }
                if rng.chance(1, 12) {
                    l.push_str("  ");
                }
                if rng.chance(1, 25) {
                    l.insert(0, '#');
                }
                l
            })
            .collect();
        at(&format!("{lines:?}"));
        let mut events = vec![];
        let built = guarded(|| ExcludePatterns::try_from_iter(root, lines.iter().map(|s| s.as_str())));
        match built {
            Ok(Ok(f)) => {
                for _ in 0..rng.range(3, 15) {
                    let mut ns = some_path(&mut rng, NAMES, 4);
                    // Paths made from the patterns' own names
                    if rng.chance(1, 2) && !lines.is_empty() {
                        let own: Vec<String> = rng.pick(&lines).split('/').filter(|c| !c.is_empty() && !c.contains(['*', '?', '[', '!', '#'])).map(|s| s.trim_end().to_string()).collect();
                        let at = rng.below(ns.len() + 1);
                        ns.splice(at..at, own);
                    }
                    ns.retain(|n| !n.is_empty());
                    if ns.is_empty() {
                        continue;
                    }
                    let p = if rng.chance(2, 3) { join(root, &ns) } else { join("", &ns) };
                    let dir = rng.chance(1, 3);
                    let path: Vec<Value> = ns.iter().map(|n| bytes(n.as_bytes())).collect();
                    let r = guarded(|| {
                        if dir && rng.chance(1, 3) {
                            let entered = (1..=ns.len()).take_while(|k| f.matched(join(root, &ns[..*k]), true).is_none()).count();
                            json!({"op": "walk", "path": path, "entered": entered})
                        } else {
                            json!({"op": "ask", "path": path, "dir": dir, "matched": f.matched(&p, dir).is_some(), "climb": f.matched_path_or_any_parents(&p, dir).is_some()})
                        }
                    });
                    events.push(r.unwrap_or_else(|m| json!({"op": "panic", "msg": m, "path": path})));
                }
            }
            Ok(Err(e)) => events.push(json!({"op": "error", "msg": e.to_string()})),
            Err(e) => events.push(json!({"op": "panic", "msg": e})),
        }
        emit(&json!({"list": "own", "root": root, "lines": lines.iter().map(|l| bytes(l.as_bytes())).collect::<Vec<_>>(), "events": events}));
    }
}

/// Names one edit away from the built-in ones, by themselves and around an R file.
pub fn near(all: bool) {
    let mut rng = Rng::from_env(43);
    let mut chars: Vec<char> = vfcommon::printable();
    chars.retain(|c| *c != '/');
    chars.push('é');
    for (list, words) in [
        ("default-exclude", &[".git", "renv", "revdep", "cpp11.R", "RcppExports.R", "extendr-wrappers.R", "import-standalone-.R", "import-standalone-x.R"][..]),
        ("default-include", &["a.R", ".r"][..]),
    ] {
        for word in words {
            let names: Vec<String> = vfcommon::edits(word, &chars)
                .into_iter()
                .filter(|n| !n.is_empty() && n != "." && n != "..")
                .filter(|n| all || n.len() < word.len() || n.eq_ignore_ascii_case(word) || rng.chance(1, 3) || list == "default-include")
                .collect();
            for some in names.chunks(20) {
                at(&some.join(" "));
                let mut events = vec![];
                for name in some {
                    let ns = if rng.chance(1, 2) { vec![name.clone()] } else { vec![name.clone(), "x.R".to_string()] };
                    let dir = rng.chance(1, 3);
                    let p = join("/", &ns);
                    let path: Vec<Value> = ns.iter().map(|n| bytes(n.as_bytes())).collect();
                    let r = guarded(|| {
                        let (matched, climb) = if list == "default-exclude" {
                            let f = DefaultExcludePatterns::default();
                            (f.matched(&p, dir).is_some(), f.matched_path_or_any_parents(&p, dir).is_some())
                        } else {
                            let f = DefaultIncludePatterns::default();
                            (f.matched(&p, dir).is_some(), f.matched_path_or_any_parents(&p, dir).is_some())
                        };
                        json!({"op": "ask", "path": path, "dir": dir, "matched": matched, "climb": climb})
                    });
                    events.push(r.unwrap_or_else(|m| json!({"op": "panic", "msg": m, "path": path})));
                }
                emit(&json!({"list": list, "lines": [], "events": events}));
            }
        }
    }
}

pub fn builtin(n: usize) {
    let mut rng = Rng::from_env(42);
    for k in 0..n {
        let exclude = k % 3 != 0;
        at("built-in patterns");
        let mut events = vec![];
        for j in 0..20 {
            let mut ns = some_path(&mut rng, BUILTIN, 4);
            if k < 6 {
                // All names by themselves first
                ns = vec![BUILTIN[(k / 3 * 20 + j) % BUILTIN.len()].to_string()];
            }
            let rooted = rng.chance(2, 3);
            let p = join(if rooted { "/" } else { "" }, &ns);
            let dir = rng.chance(1, 3);
            let path: Vec<Value> = ns.iter().map(|n| bytes(n.as_bytes())).collect();
            let r = guarded(|| {
                let (matched, climb) = if exclude {
                    let f = DefaultExcludePatterns::default();
                    (f.matched(&p, dir).is_some(), f.matched_path_or_any_parents(&p, dir).is_some())
                } else {
                    let f = DefaultIncludePatterns::default();
                    (f.matched(&p, dir).is_some(), f.matched_path_or_any_parents(&p, dir).is_some())
                };
                json!({"op": "ask", "path": path, "dir": dir, "matched": matched, "climb": climb})
            });
            events.push(r.unwrap_or_else(|m| json!({"op": "panic", "msg": m, "path": path})));
        }
        emit(&json!({"list": if exclude { "default-exclude" } else { "default-include" }, "lines": [], "events": events}));
    }
}
